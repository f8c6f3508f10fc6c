"""Build steps, harness compilation, symbolic execution and replay. Used by check.py and setup.sh."""
import os
os.environ.setdefault('GLIBC_TUNABLES', 'glibc.malloc.hugetlb=1') # cheaper forks for the executor
import os, sys, re, json, subprocess, fcntl, glob, time, hashlib, shutil, contextlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
SRC = REPO + "/Sources"
BUILD = os.environ.get("VX_BUILD", VERIF + "/build")
NATIVE = BUILD + "/native"; BC = BUILD + "/bc"; SYMEX = BUILD + "/symex/symex"
LLVM14 = "/usr/lib/llvm-14/bin"
ENV = {k: v for k, v in os.environ.items() if k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH")}
ENV.update(LC_ALL="en_US.UTF-8", LANG="en_US.UTF-8", PYTHONDONTWRITEBYTECODE="1", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

class Rejected(Exception):
    """The compiler, though it builds, rejects (or crashes on) a valid program."""
    def __init__(self, name, path, out, rc): Exception.__init__(self, name); self.name, self.path, self.out, self.rc = name, path, out, rc
class Broken(Exception): pass   # the check cannot give an answer

def sh(cmd, **kw):
    to = kw.pop("timeout", 800); env = kw.pop("env", ENV); check = kw.pop("check", True)
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=to, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        if check: raise Broken("timeout: %s" % (cmd if isinstance(cmd, str) else " ".join(cmd))[:200])
        class R: pass
        r = R(); r.returncode = 124; r.stdout = (e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout) or ""; return r
    if check and r.returncode != 0: raise Broken("command failed (%d): %s\n%s" % (r.returncode, (cmd if isinstance(cmd, str) else " ".join(cmd))[:400], r.stdout[-3000:]))
    return r

@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/." + name + ".lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX); yield

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, "w").write(text)

# ---------------------------------------------------------------- builds
def build_symex():
    with lock("symex"):
        os.makedirs(BUILD + "/symex", exist_ok=True)
        srcs = glob.glob(VERIF + "/symex/*")
        h = hashlib.sha1(b"".join(open(s, "rb").read() for s in sorted(srcs))).hexdigest()
        st = BUILD + "/symex/stamp"
        if not (os.path.exists(SYMEX) and os.path.exists(st) and open(st).read() == h):
            sh([VERIF + "/symex/build.sh", SYMEX]); open(st, "w").write(h)

def build_native():
    with lock("native"):
        os.makedirs(NATIVE, exist_ok=True)
        sh(["cmake", "-S", SRC, "-B", NATIVE, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-g1 -O1 -fno-strict-aliasing -fno-delete-null-pointer-checks -fwrapv -fno-lifetime-dse", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
            "-DPython3_EXECUTABLE=" + VERIF + "/tools/pyfixed", "-DLLVM_DIR=/opt/vp/llvm-compat/cmake", "-DCMAKE_ENABLE_EXPORTS=ON", "-DCppInteropTest_BINARY_DIR=" + NATIVE + "/Tests", "-DCMAKE_INSTALL_PREFIX=" + NATIVE + "/install"])
        sh(["ninja", "-C", NATIVE], timeout=850)

BCFLAGS = "-O1 -g0 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -std=c++17 -fno-rtti -fvisibility=hidden -D_GLIBCXX_EXTERN_TEMPLATE=0 -DUSE_LOGS -DALUSUS_VERSION=\\\"0\\\" -DALUSUS_REVISION=\\\"0\\\" -DALUSUS_RELEASE_DATE=\\\"0\\\" -DALUSUS_HIJRI_RELEASE_DATE=\\\"0\\\" -I%s/Srt/Srl -I%s/Core -I%s/Spp -I%s/lib -w" % (SRC, SRC, SRC, VERIF)
SPP_SKIP = ("/LlvmCodeGen/", "/BuildManager.cpp", "/LibraryGateway.cpp")
def build_bc(which):
    """Bitcode of the real Core (and Spp without the LLVM back end) sources, from the current tree."""
    with lock("bc"):
        o = ["builddir = .", "rule cc\n  command = clang++-18 %s -emit-llvm -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = BC $in\n" % BCFLAGS,
             "rule ccs\n  command = clang++-18 %s -include %s/lib/nollvm.h -emit-llvm -c $in -o $out -MD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n  description = BC $in\n" % (BCFLAGS, VERIF),
             "rule ln\n  command = llvm-link-18 $in -o $out\n  description = LINK $out\n",
             "rule obj\n  command = clang++-18 -w -O1 -fPIC -c $in -o $out\n  description = OBJ $out\n", "rule rel\n  command = ld -r $in -o $out\n  description = REL $out\n"]
        seen = set()
        def group(name, files, rule="cc"):
            outs = []
            for f in files:
                b = f[len(SRC) + 1:].replace("/", "_") + ".bc"; outs.append(b); o.append("build %s: %s %s" % (b, rule, f))
            if name: link(name, outs)
            return outs
        def link(name, outs):
            o.append("build %s.bc: ln %s" % (name, " ".join(outs)))
            for b in outs:
                if b not in seen: seen.add(b); o.append("build %s: obj %s" % (b[:-3] + ".o", b))
            o.append("build %s.o: rel %s" % (name, " ".join(b[:-3] + ".o" for b in outs)))
        co = group("core", sorted(f for f in glob.glob(SRC + "/Core/**/*.cpp", recursive=True) if not f.endswith("/Core/start.cpp")) + sorted(glob.glob(SRC + "/Srt/Srl/*.cpp")))
        group2 = [f for f in sorted(glob.glob(SRC + "/Core/Basic/*.cpp")) + [SRC + "/Core/core_global_storage.cpp"] + sorted(glob.glob(SRC + "/Srt/Srl/*.cpp"))]
        link("basic", [f[len(SRC) + 1:].replace("/", "_") + ".bc" for f in group2])
        sp = [f for f in sorted(glob.glob(SRC + "/Spp/**/*.cpp", recursive=True)) if not any(s in f for s in SPP_SKIP)]
        link("front", co + group(None, sp, "ccs"))
        os.makedirs(BC, exist_ok=True); write_if_changed(BC + "/build.ninja", "\n".join(o) + "\n")
        sh(["ninja", "-C", BC] + [w + e for w in which for e in (".bc", ".o")], timeout=850)

def build_support():
    with lock("support"):
        d = BUILD + "/support"; os.makedirs(d, exist_ok=True)
        def up(out, src, cmd):
            deps = [src, VERIF + "/lib/vx.h"]
            if not os.path.exists(out) or any(os.path.getmtime(x) > os.path.getmtime(out) for x in deps): sh(cmd)
        ml = VERIF + "/lib/minilibc.c"; st = VERIF + "/lib/vxstub.c"
        up(d + "/minilibc.bc", ml, ["clang-18", "-O1", "-w", "-fno-builtin", "-emit-llvm", "-c", ml, "-o", d + "/minilibc.bc"])
        ss = VERIF + "/lib/stdstring.cpp"; up(d + "/stdstring.bc", ss, ["clang++-18", "-O1", "-std=c++17", "-w", "-fno-builtin", "-emit-llvm", "-c", ss, "-o", d + "/stdstring.bc"])
        up(d + "/libvxstub.so", st, ["gcc", "-O1", "-g", "-shared", "-fPIC", "-DVX_COUNT_MALLOC", st, "-o", d + "/libvxstub.so"])
        up(d + "/vxstub.o", st, ["gcc", "-O1", "-g", "-c", "-DVX_COUNT_MALLOC", "-DVX_MAIN_PROGRAM", st, "-o", d + "/vxstub.o"])
        up(d + "/vxstub_asan.o", st, ["gcc", "-O1", "-g", "-c", st, "-o", d + "/vxstub_asan.o"])
    return d

def alusus_env(extra=None):
    e = dict(ENV); e["LD_LIBRARY_PATH"] = "%s/Core:%s/Spp" % (NATIVE, NATIVE); e["ALUSUS_LIBS"] = "%s/Srt:%s/Spp:%s/Tests" % (SRC, NATIVE, NATIVE)
    if extra: e.update(extra)
    return e
def alusus(path, timeout=300, env=None, cwd=None):
    return sh([NATIVE + "/Core/alusus.dbg", path], env=alusus_env(env), timeout=timeout, check=False, cwd=cwd)

# ---------------------------------------------------------------- harness units
def subst(text, tier):
    return re.sub(r"\{\{([^|{}]*)\|([^|{}]*)\}\}", lambda m: m.group(1 if tier == "quick" else 2), text)

class Unit:
    def __init__(self, name, kind, src=None, gen=None, ref=(), libs=("core",), opts=(), thorough_opts=None, only_thorough=False, covers=True, imports=(), noassert=(), defs=()):
        self.defs = list(defs)
        self.name, self.kind, self.src, self.gen, self.ref, self.libs = name, kind, src, gen, list(ref), list(libs)
        self.opts, self.thorough_opts, self.only_thorough, self.covers, self.imports, self.noassert = list(opts), thorough_opts, only_thorough, covers, list(imports), set(noassert)

    def prepare(self, tier, wd):
        """Compile the harness together with the current code; returns (bitcode files, entries)."""
        self.wd = wd; os.makedirs(wd, exist_ok=True); self.tier = tier
        sup = build_support()
        if self.kind == "alusus":
            text, refc = self.gen(tier) if self.gen else (open(VERIF + "/harness/alusus/" + self.src).read(), None)
            text = subst(text, tier); self.text = text
            imps = ["Spp", "Core/Basic"] + self.imports
            head = "".join('import "%s";\n' % i for i in imps) + open(VERIF + "/harness/alusus/vx.alusus").read() + "\n"
            self.head = head
            p = wd + "/h.alusus"; open(p, "w").write(head + text + "\nSpp.buildMgr.dumpLlvmIrForElement(H~ast);\n")
            r = alusus(p)
            if "Generated LLVM IR" not in r.stdout: raise Rejected(self.name, p, r.stdout[:3000], r.returncode)
            ir = r.stdout.split("-------------------- Generated LLVM IR ---------------------\n", 1)[1].split("------------------------------------------------------------", 1)[0]
            ir = re.sub(r"@llvm\.(global_[cd]tors = )appending ", r"@vx.\1", ir)
            open(wd + "/h.ll", "w").write(ir)
            sh([LLVM14 + "/llvm-as", wd + "/h.ll", "-o", wd + "/h.bc"])
            self.entries = re.findall(r'^define void @"?(H\.t_\w+\(\))"?\(', ir, re.M)
            bcs = [wd + "/h.bc"]; self.refsrc = []
            if refc is not None: open(wd + "/ref.c", "w").write(subst(refc, tier)); self.refsrc.append(wd + "/ref.c")
            for rf in self.ref: self.refsrc.append(VERIF + "/harness/alusus/" + rf)
            for i, rf in enumerate(self.refsrc):
                o = wd + "/ref%d.bc" % i; sh(["clang-18", "-O1", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-I" + VERIF + "/lib", "-emit-llvm", "-c", rf, "-o", o]); bcs.append(o)
            bcs.append(sup + "/minilibc.bc")
        elif self.kind == "cpp":
            build_bc([l for l in self.libs])
            self.text = open(VERIF + "/harness/cpp/" + self.src).read(); self.cppdef = ["-DVX_THOROUGH=%d" % (tier == "thorough")] + self.defs
            o = wd + "/h.bc"; sh("clang++-18 %s %s -emit-llvm -c %s -o %s" % (BCFLAGS, " ".join(self.cppdef + (["-include " + VERIF + "/lib/nollvm.h"] if "front" in self.libs else [])), VERIF + "/harness/cpp/" + self.src, o), shell=True)
            self.entries = re.findall(r' T (t_\w+)$', sh(["llvm-nm-18", o]).stdout, re.M)
            bcs = [o] + [BC + "/%s.bc" % l for l in self.libs] + [sup + "/stdstring.bc", sup + "/minilibc.bc"]
        if not self.entries: raise Broken("harness %s has no entries" % self.name)
        self.bcs = bcs
        return bcs, self.entries

    def execute(self, jobs=8):
        out = self.wd + "/out"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        opts = self.thorough_opts if self.tier == "thorough" and self.thorough_opts is not None else self.opts
        r = sh([SYMEX, "-out", out, "-j", str(jobs), "-entry", ",".join(self.entries)] + [str(x) for x in opts] + self.bcs, check=False, timeout=3600)
        try: self.result = json.load(open(out + "/result.json"))
        except Exception: raise Broken("symbolic executor failed on %s: %s" % (self.name, r.stdout[-2000:]))
        self.viols = []
        for f in sorted(glob.glob(glob.escape(out) + "/*.v*.json")):
            v = json.load(open(f)); v["file"] = f; self.viols.append(v)
        return self.result

    # ------------------------------------------------------------ native replay
    def input_file(self, inputs, path):
        with open(path, "w") as f:
            for n, h in inputs: f.write("%s %s\n" % (n, h))

    def build_replay(self):
        sup = build_support()
        if self.kind == "alusus":
            if self.refsrc: sh(["gcc", "-O1", "-g", "-w", "-shared", "-fPIC", "-I" + VERIF + "/lib"] + self.refsrc + ["-o", self.wd + "/libref.so"])
        else:
            self.build_cpp("replay", [], sup + "/vxstub.o")
        self.replay_built = True

    def build_cpp(self, exe, flags, stub):
        """Native program of a C++ harness, with the same sources of /repo that are executed symbolically."""
        main = self.wd + "/main.cpp"
        open(main, "w").write("#include <cstring>\n" + "".join('extern "C" void %s();\n' % e for e in self.entries) + "int main(int c, char **v) { for (int i = 1; i < c; i++) {\n" + "".join('if (!strcmp(v[i], "%s")) %s();\n' % (e, e) for e in self.entries) + "} return 0; }\n")
        if len(self.libs) > 1: raise Broken("native replay takes one library")
        lib = BC + "/%s.o" % self.libs[0]
        sh(["clang++-18", "-std=c++17", "-g", "-O1", "-fno-rtti", "-w", "-DUSE_LOGS"] + flags + self.cppdef + (["-include", VERIF + "/lib/nollvm.h", "-Wl,--unresolved-symbols=ignore-all"] if "front" in self.libs else []) + ["-I" + SRC + "/Srt/Srl", "-I" + SRC + "/Core", "-I" + SRC + "/Spp", "-I" + VERIF + "/lib", VERIF + "/harness/cpp/" + self.src, main, lib, stub, "-o", self.wd + "/" + exe, "-ldl", "-lpthread"])

    def run_native(self, entries, inputs, tag, timeout=60):
        if not getattr(self, "replay_built", False): self.build_replay()
        fin = self.wd + "/%s.inputs" % tag; self.input_file(inputs, fin)
        if self.kind == "alusus":
            sup = BUILD + "/support"; imps = ["Spp", "Core/Basic"] + self.imports
            p = self.wd + "/%s.alusus" % tag
            open(p, "w").write(self.head + self.text + "\n" + (('import "%s/libref.so";\n' % self.wd) if self.refsrc else "") + "".join("%s;\n" % e for e in entries))
            cmd = "cd %s && %s VX_INPUTS=%s LD_PRELOAD=%s/libvxstub.so timeout %d %s/Core/alusus.dbg %s" % (self.wd, " ".join("%s='%s'" % (k, alusus_env()[k]) for k in ("LD_LIBRARY_PATH", "ALUSUS_LIBS", "LC_ALL")), fin, sup, timeout, NATIVE, p)
        else:
            cmd = "VX_INPUTS=%s timeout %d %s/replay %s" % (fin, timeout, self.wd, " ".join(entries))
        r = sh(["bash", "-c", cmd], check=False, timeout=timeout + 20)
        return r.returncode, r.stdout, cmd

    def run_asan(self, entry, inputs, tag, timeout=60):
        """Native execution of the same generated code under AddressSanitizer."""
        fin = self.wd + "/%s.inputs" % tag; self.input_file(inputs, fin); exe = self.wd + "/asan_" + re.sub(r"\W", "_", entry)
        env = "VX_INPUTS=%s ASAN_OPTIONS=detect_leaks=0:handle_segv=1:allow_user_segv_handler=0:detect_stack_use_after_return=1 timeout %d " % (fin, timeout)
        if self.kind == "cpp":
            if not getattr(self, "asan_built", False): self.build_cpp("asan_replay", ["-fsanitize=address"], BUILD + "/support/vxstub_asan.o"); self.asan_built = True
            cmd = env + self.wd + "/asan_replay " + entry; r = sh(["bash", "-c", cmd], check=False, timeout=timeout + 20); return r.returncode, r.stdout, cmd
        lk = self.wd + "/asan.bc"; sh(["llvm-link-18"] + [b for b in self.bcs if "minilibc" not in b] + ["-o", lk])
        ll = sh(["llvm-dis-18", lk, "-o", "-"]).stdout if False else None
        sh(["llvm-dis-18", lk, "-o", self.wd + "/asan.ll"])
        t = open(self.wd + "/asan.ll").read()
        t = re.sub(r'^(define [^\n]*?)(\s(?:personality [^\n]*)?)\{$', lambda m: (m.group(1) + " sanitize_address" + m.group(2) + "{") if "personality" not in m.group(0) else re.sub(r" personality", " sanitize_address personality", m.group(0), 1), t, flags=re.M)
        call = 'call void @"%s"()' % entry
        t += '\ndefine i32 @main() {\n  %s\n  ret i32 0\n}\n' % call if '@main(' not in t else ""
        ctor = re.search(r'@vx\.global_ctors = [^\n]*', t)
        if ctor:
            names = re.findall(r'ptr @("?__constructor__[^",\s]*"?)', ctor.group(0))
            t = t.replace("  " + call, "".join("  call void @%s()\n" % n for n in names) + "  " + call)
        open(self.wd + "/asan2.ll", "w").write(t)
        r = sh(["clang++-18", "-w", "-O0", "-fsanitize=address", self.wd + "/asan2.ll", BUILD + "/support/vxstub_asan.o", "-o", exe, "-ldl", "-lm"], check=False)
        if r.returncode: return 1, "asan build failed: " + r.stdout[-1500:], ""
        cmd = env + exe
        r = sh(["bash", "-c", cmd], check=False, timeout=timeout + 20)
        return r.returncode, r.stdout, cmd

    def confirm(self, v, k):
        """Replay one counterexample on native code. Returns (reproduced, description, command)."""
        tag = "viol%d" % k; rc, out, cmd = self.run_native([v["entry"]], v["inputs"], tag, 40)
        open(self.wd + "/%s.log" % tag, "w").write(out)
        m = re.search(r"VX-REPRODUCED: (.*)", out)
        if rc == 77 and m: return True, m.group(1), cmd
        if v["kind"] == "hang" and rc == 124: return True, "did not terminate within the time limit", cmd
        if rc < 0 or rc in (132, 134, 136, 137, 139): return True, "process died (status %d)" % rc, cmd
        if v["kind"] in ("memory", "stack"):
            rc2, out2, cmd2 = self.run_asan(v["entry"], v["inputs"], tag + "a"); open(self.wd + "/%s.asan.log" % tag, "w").write(out2)
            m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", out2)
            if m: return True, "AddressSanitizer: " + m.group(1), cmd2
        if v["kind"] == "exception" and ("terminate called" in out): return True, "uncaught exception", cmd
        return False, "not reproduced (status %d)" % rc, cmd
