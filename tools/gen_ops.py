"""Generates the harnesses (Alusus source) and the independent references (C source) for the
operator and conversion properties C06..C09."""
import re
INTS = [(s, w) for s in "iw" for w in (8, 16, 32, 64)]
def al(t): return {"i": "Int", "w": "Word", "f": "Float"}[t[0]] + "[%d]" % t[1]
def c(t): return {"i": "int%d_t", "w": "uint%d_t"}[t[0]] % t[1] if t[0] != "f" else {32: "float", 64: "double"}[t[1]]
def u(t): return "uint%d_t" % t[1]
def nm(t): return "%s%d" % t

class G:
    def __init__(self):
        self.al, self.c, self.decl, self.n = [], ['#include "vx.h"', "#include <string.h>", "typedef uint64_t U; typedef int64_t L;", "static double d_(U v) { double d; memcpy(&d, &v, 8); return d; } static U ud_(double d) { U v; memcpy(&v, &d, 8); return v; }",
          "static float f_(U v) { uint32_t w = v; float d; memcpy(&d, &w, 4); return d; } static U uf_(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }",
          "static int nan64(U v) { return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; } static int nan32(U v) { return ((uint32_t)v & 0x7fffffff) > 0x7f800000; }"], [], 0
    def ref(self, name, nargs, body):
        a = ", ".join("U r%s" % "abcdefgh"[i] for i in range(nargs))
        self.c.append("L %s(%s) { %s }" % (name, a, body))
        self.decl.append("@expname[%s] func %s(%s): Int[64];" % (name, name, ", ".join("%s: Word[64]" % "abcdefgh"[i] for i in range(nargs))))
    def fn(self, name, body): self.al.append("    func t_%s() { %s }" % (name, body)); self.n += 1
    def out(self, extra=""):
        return "module H {\n    use Srl;\n    func eq(got: Int[64], want: Int[64], name: ptr[array[Word[8]]]) { Vx.check(got == want, name); }\n" \
          "    func bits64(p: ptr[Float[64]]): Word[64] { return p~cast[ptr[Word[64]]]~cnt; }\n    func bits32(p: ptr[Float[32]]): Word[64] { return p~cast[ptr[Word[32]]]~cnt; }\n" \
          + extra + "".join("    %s\n" % d for d in self.decl) + "\n".join(self.al) + "\n};\n", "\n".join(self.c) + "\n"

def operand(v, t, raw="r"):
    """declare a typed variable fed from a raw 64-bit input"""
    if t[0] == "f":
        if t[1] == 64: return 'def %s%s: Word[64]; %s%s = Vx.u64("%s"); def %s: Float[64]; %s = (%s%s~ptr~cast[ptr[Float[64]]])~cnt; ' % (raw, v, raw, v, v, v, v, raw, v)
        return 'def %s%s: Word[64]; %s%s = Vx.u64("%s"); def n%s: Word[32]; n%s = %s%s; def %s: Float[32]; %s = (n%s~ptr~cast[ptr[Float[32]]])~cnt; ' % (raw, v, raw, v, v, v, v, raw, v, v, v, v)
    return 'def %s%s: Word[64]; %s%s = Vx.u64("%s"); def %s: %s; %s = %s%s; ' % (raw, v, raw, v, v, v, al(t), v, raw, v)
def cop(v, t):
    if t[0] == "f": return "double %s = d_(r%s); " % (v, v) if t[1] == 64 else "float %s = f_(r%s); " % (v, v)
    return "%s %s = (%s)r%s; " % (c(t), v, c(t), v)

def common(a, b, arith):
    w = max(a[1], b[1])
    if arith and w < 32: w = 32
    return ("i" if "i" in (a[0], b[0]) else "w", w)

def ints(tier):
    g = G()
    # binary operators over every pair of types
    for a in INTS:
        for b in INTS:
            body = operand("a", a) + operand("b", b); checks = []
            for op, n in (("+", "add"), ("-", "sub"), ("*", "mul")):
                t = common(a, b, True); r = "ref_%s_%s_%s" % (n, nm(a), nm(b))
                g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)(%s)((%s)(%s)a %s (%s)(%s)b);" % (c(t), u(t), c(t), op, u(t), c(t)))
                checks.append('eq(a %s b, %s(ra, rb), "%s");' % (op, r, n))
            for op, n in (("&", "and"), ("|", "or"), ("$", "xor")):
                t = common(a, b, False); r = "ref_%s_%s_%s" % (n, nm(a), nm(b))
                g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)(%s)((%s)a %s (%s)b);" % (c(t), c(t), "^" if op == "$" else op, c(t)))
                checks.append('eq(a %s b, %s(ra, rb), "%s");' % (op, r, n))
            g.fn("bin_%s_%s" % (nm(a), nm(b)), body + " ".join(checks) + ' eq(a, %s, "left operand unchanged"); eq(b, %s, "right operand unchanged");' % (self_ref(g, a, "ra"), self_ref(g, b, "rb")))
            # division and remainder; shifts
            t = common(a, b, True); pre = "ok_div_%s_%s" % (nm(a), nm(b)); lim = "" if t[0] == "w" else " && !((%s)b == -1 && (%s)a == (%s)((%s)1 << %d))" % (c(t), c(t), c(t), u(t), t[1] - 1)
            g.ref(pre, 2, cop("a", a) + cop("b", b) + "return (%s)b != 0%s;" % (c(t), lim)); chk = []
            for op, n in (("/", "div"), ("%", "rem")):
                r = "ref_%s_%s_%s" % (n, nm(a), nm(b)); g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)(%s)((%s)a %s (%s)b);" % (c(t), c(t), op, c(t)))
                chk.append('eq(a %s b, %s(ra, rb), "%s");' % (op, r, n))
            g.fn("div_%s_%s" % (nm(a), nm(b)), body + "Vx.assumeI(%s(ra, rb)~cast[Int[32]]); " % pre + " ".join(chk))
            pre = "ok_sh_%s_%s" % (nm(a), nm(b)); g.ref(pre, 2, cop("b", b) + "return (%s)b < %d && (int64_t)b >= 0;" % ("uint64_t", a[1])); chk = []
            for op, n, e in (("<<", "shl", "(%s)((%s)a << b)" % (c(a), u(a))), (">>", "shr", "(%s)(a >> b)" % c(a))):
                r = "ref_%s_%s_%s" % (n, nm(a), nm(b)); g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)%s;" % e); chk.append('eq(a %s b, %s(ra, rb), "%s");' % (op, r, n))
            g.fn("sh_%s_%s" % (nm(a), nm(b)), body + "Vx.assumeI(%s(ra, rb)~cast[Int[32]]); " % pre + " ".join(chk))
    # compound assignments: the target is a structure member between two guards
    for a in INTS:
        for b in INTS:
            ops = [("+=", "+"), ("-=", "-"), ("*=", "*"), ("&=", "&"), ("|=", "|"), ("$=", "^")]
            body = operand("a", a) + operand("b", b) + "def g: Word[64]; g = Vx.u64(\"g\"); def s: S_%s; " % nm(a)
            for op, co in ops:
                t = common(a, b, True); r = "ref_as%s_%s_%s" % ({"+": "add", "-": "sub", "*": "mul", "&": "and", "|": "or", "^": "xor"}[co], nm(a), nm(b))
                g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)(%s)((%s)(%s)a %s (%s)(%s)b);" % (c(a), u(t), c(t), co, u(t), c(t)))
                body += 's.g1 = g; s.v = a; s.g2 = g; s.v %s b; eq(s.v, %s(ra, rb), "assign%s"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (op, r, op)
            g.fn("asg_%s_%s" % (nm(a), nm(b)), body)
            pre = "ok_sh_%s_%s" % (nm(a), nm(b))
            body = operand("a", a) + operand("b", b) + "Vx.assumeI(%s(ra, rb)~cast[Int[32]]); def s: S_%s; def g: Word[64](1); " % (pre, nm(a))
            for op, n in (("<<=", "shl"), (">>=", "shr")):
                body += 's.g1 = g; s.v = a; s.g2 = g; s.v %s b; eq(s.v, ref_%s_%s_%s(ra, rb), "assign%s"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (op, n, nm(a), nm(b), op)
            g.fn("asgsh_%s_%s" % (nm(a), nm(b)), body)
            t = common(a, b, True); body = operand("a", a) + operand("b", b) + "Vx.assumeI(ok_div_%s_%s(ra, rb)~cast[Int[32]]); def s: S_%s; def g: Word[64](1); " % (nm(a), nm(b), nm(a))
            for op, co, n in (("/=", "/", "div"), ("%=", "%", "rem")):
                r = "ref_as%s_%s_%s" % (n, nm(a), nm(b)); g.ref(r, 2, cop("a", a) + cop("b", b) + "return (L)(%s)((%s)a %s (%s)b);" % (c(a), c(t), co, c(t)))
                body += 's.g1 = g; s.v = a; s.g2 = g; s.v %s b; eq(s.v, %s(ra, rb), "assign%s"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (op, r, op)
            g.fn("asgdiv_%s_%s" % (nm(a), nm(b)), body)
    # unary operators
    for a in INTS:
        body = operand("a", a) + "def g: Word[64]; g = Vx.u64(\"g\"); def s: S_%s; " % nm(a)
        t = ("i", a[1])
        for n, e, ty in (("neg", "(%s)(0 - (%s)a)" % (c(a), u(a)), a), ("com", "(%s)~a" % c(a), a), ("inc", "(%s)((%s)a + 1)" % (c(a), u(a)), a), ("dec", "(%s)((%s)a - 1)" % (c(a), u(a)), a), ("id", "a", a)):
            g.ref("ref_%s_%s" % (n, nm(a)), 1, cop("a", a) + "return (L)%s;" % e)
        g.ref("ref_ineg_%s" % nm(a), 1, cop("a", a) + "return (L)(%s)(0 - (%s)a);" % (c(t), u(t)))
        body += 'eq(-a, ref_ineg_%s(ra), "neg"); eq(!a, ref_com_%s(ra), "complement"); eq(+a, ref_id_%s(ra), "plus"); ' % ((nm(a),) * 3)
        for n, e, res, new in (("preinc", "++s.v", "inc", "inc"), ("predec", "--s.v", "dec", "dec"), ("postinc", "s.v++", "id", "inc"), ("postdec", "s.v--", "id", "dec")):
            body += 's.g1 = g; s.v = a; s.g2 = g; eq(%s, ref_%s_%s(ra), "%s value"); eq(s.v, ref_%s_%s(ra), "%s target"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (e, res, nm(a), n, new, nm(a), n)
        g.fn("una_%s" % nm(a), body)
    structs = "".join("    class S_%s { def g1: Word[64]; def v: %s; def g2: Word[64]; };\n" % (nm(a), al(a)) for a in INTS)
    return g.out(structs)

def self_ref(g, t, arg):
    n = "ref_self_%s" % nm(t)
    if not any(n in d for d in g.decl): g.ref(n, 1, cop("a", t) + "return (L)a;")
    return "%s(%s)" % (n, arg)


FLOATS = [("f", 32), ("f", 64)]
def fcommon(a, b):
    fs = [t for t in (a, b) if t[0] == "f"]
    return max(fs, key=lambda t: t[1])
def fbits(v, t): return "bits%d(%s~ptr)" % (t[1], v)
def fret(t, e): return "return (L)u%s_((%s)(%s));" % ("d" if t[1] == 64 else "f", c(t), e)

def cmp_ok(a, b):
    if a[0] == b[0]: return True
    wa, wb = (a, b) if a[0] == "w" else (b, a)
    return wa[1] < wb[1]
CMPS = (("==", "eq"), ("!=", "ne"), ("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge"))
def comparisons(tier):
    g = G()
    for a in INTS:
        for b in INTS:
            if not cmp_ok(a, b): continue
            w = max(a[1], b[1]); t = ("w" if a[0] == b[0] == "w" else "i", w); body = operand("a", a) + operand("b", b)
            for op, n in CMPS:
                r = "ref_%s_%s_%s" % (n, nm(a), nm(b)); g.ref(r, 2, cop("a", a) + cop("b", b) + "return (%s)a %s (%s)b;" % (c(t), op, c(t)))
                body += 'eq(a %s b, %s(ra, rb), "%s"); ' % (op, r, n)
            body += 'def k: Int[64](0); if a < b { k = 1 } else if a == b { k = 2 } else { k = 3 } if k == 1 { Vx.cover("less") } if k == 2 { Vx.cover("equal") } if k == 3 { Vx.cover("greater") } eq(k, ref_lt_%s_%s(ra, rb) + ref_eq_%s_%s(ra, rb) * 2 + ref_gt_%s_%s(ra, rb) * 3, "branch on comparison"); ' % ((nm(a), nm(b)) * 3)
            g.fn("cmp_%s_%s" % (nm(a), nm(b)), body)
    for a in FLOATS:
        for b in FLOATS + INTS:
            for x, y in ((a, b), (b, a)) if b[0] != "f" else ((a, b),):
                t = fcommon(x, y); body = operand("a", x) + operand("b", y)
                for op, n in CMPS:
                    r = "ref_%s_%s_%s" % (n, nm(x), nm(y)); g.ref(r, 2, cop("a", x) + cop("b", y) + "return (%s)a %s (%s)b;" % (c(t), op, c(t)))
                    body += 'eq(a %s b, %s(ra, rb), "%s"); ' % (op, r, n)
                g.fn("cmp_%s_%s" % (nm(x), nm(y)), body)
    g.fn("cmp_bool", 'def a: Bool; def b: Bool; def x: Word[8]; def y: Word[8]; x = Vx.u8("a"); y = Vx.u8("b"); a = x > 200; b = y > 200; eq(a == b, (x > 200 && y > 200) || (x <= 200 && y <= 200), "bool eq"); eq(a != b, (x > 200 && y <= 200) || (x <= 200 && y > 200), "bool ne");')
    # pointers: equality by address, against other pointers and null
    g.fn("cmp_ptr", 'def a: array[Int[32], 4]; def i: Int[32]; def j: Int[32]; i = Vx.range(0, 3, "i"); j = Vx.range(0, 3, "j"); def p: ptr[Int[32]]; def q: ptr[Int[32]]; p = a(i)~ptr; q = a(j)~ptr; eq(p == q, i == j, "ptr eq"); eq(p != q, i != j, "ptr ne"); eq(p == 0, 0, "ptr null"); eq(p != 0, 1, "ptr not null"); eq(0 == p, 0, "null ptr"); def z: ptr[Int[32]](0); eq(z == 0, 1, "null"); eq(p == z, 0, "null var");')
    return g.out()

def logic(tier):
    """Expression trees of logical operators over operands with observable side effects."""
    g = G(); n = 0
    g.c.append("static U lg; static U in_; static int lf(int i) { lg = lg * 8 + i + 1; return (in_ >> i) & 1; }")
    ex = "    def lg: Word[64];\n    def inp: Word[64];\n    func lf(i: Word[64]): Bool { lg = lg * 8 + i + 1; return ((inp >> i) & 1) == 1; }\n"
    def trees(lo, hi):
        if hi - lo == 1:
            yield ("lf(%d)" % lo,) * 2
            return
        for m in range(lo + 1, hi):
            for l in trees(lo, m):
                for r in trees(m, hi):
                    for op, co in (("&&", "&&"), ("||", "||")): yield "(%s %s %s)" % (l[0], op, r[0]), "(%s %s %s)" % (l[1], co, r[1])
    ts = [t for k in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5)) for t in trees(0, k)]
    ts += [("(!!%s && !!%s)" % (x, y), "(!%s && !%s)" % (x, y)) for x, y in (("lf(0)", "lf(1)"), ("(lf(0) || lf(1))", "lf(2)"))]
    ts += [("(not lf(0) or lf(1) and lf(2))", None)]
    ts += [("(lf(0) and lf(1))", "(lf(0) && lf(1))"), ("(lf(0) or lf(1))", "(lf(0) || lf(1))"), ("((lf(0) or lf(1)) and not lf(2))", "((lf(0) || lf(1)) && !lf(2))")]
    ts = [t for t in ts if t[1]]
    for i, (ea, ec) in enumerate(ts):
        shape = i % 4; r = "ref_l%d" % i
        if shape == 0: use, cu = "def v: Bool; v = %s; res = 0; if v { res = 1 }" % ea, "res = %s;" % ec
        elif shape == 1: use, cu = "if %s { res = 1 } else { res = 2 }" % ea, "res = %s ? 1 : 2;" % ec
        elif shape == 2: use, cu = "res = takes(%s, lf(7))" % ea, "int x = %s; int y = lf(7); res = x * 2 + y;" % ec
        else: use, cu = "def k: Int[64](0); while k < 2 && %s { k++; inp = inp >> 3; } res = k" % ea, "int k = 0; while (k < 2 && %s) { k++; in_ >>= 3; } res = k;" % ec
        g.ref(r, 1, "in_ = ra; lg = 0; L res = 0; %s return res * 0x1000000000000 + lg;" % cu)
        g.fn("logic_%d" % i, 'def ra: Word[64]; ra = Vx.u64("a"); inp = ra; lg = 0; def res: Int[64](0); %s; eq(res * 281474976710656 + lg, %s(ra), "value and evaluation order of %s");' % (use, r, ea.replace('"', "")))
    ex += "    func takes(a: Bool, b: Bool): Int[64] { def r: Int[64](0); if a { r = 2 } if b { r = r + 1 } return r; }\n"
    return g.out(ex)

def floats(tier):
    g = G()
    g.c.append("double fmod(double, double); float fmodf(float, float);")
    for a in FLOATS:
        for b in FLOATS + INTS:
            for x, y in ((a, b), (b, a)) if b[0] != "f" else ((a, b),):
                t = fcommon(x, y); body = operand("a", x) + operand("b", y) + "def r: %s; " % al(t); T = c(t)
                for op, n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "rem")):
                    r = "ref_%s_%s_%s" % (n, nm(x), nm(y)); e = "(%s)a %s (%s)b" % (T, op, T) if op != "%" else "fmod%s((%s)a, (%s)b)" % ("f" if t[1] == 32 else "", T, T)
                    g.ref(r, 2, cop("a", x) + cop("b", y) + fret(t, e))
                    body += 'r = a %s b; feq%d(%s, %s(ra, rb), "%s"); ' % (op, t[1], fbits("r", t), r, n)
                    # a wider destination shows that nothing was narrowed on the way
                    if t[1] == 32:
                        w = "refw_%s_%s_%s" % (n, nm(x), nm(y)); g.ref(w, 2, cop("a", x) + cop("b", y) + fret(("f", 64), "(double)(float)(%s)" % e))
                        body += 'def w%s: Float[64]; w%s = a %s b; feq64(bits64(w%s~ptr), %s(ra, rb), "%s widened"); ' % (n, n, op, n, w, n)
                g.fn("bin_%s_%s" % (nm(x), nm(y)), body)
                # compound assignment
                if x[0] == "f":
                    body = operand("a", x) + operand("b", y) + 'def s: S_%s; def g: Word[64]; g = Vx.u64("g"); ' % nm(x)
                    for op, n in (("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div")):
                        r = "refas_%s_%s_%s" % (n, nm(x), nm(y)); g.ref(r, 2, cop("a", x) + cop("b", y) + fret(x, "(%s)((%s)a %s (%s)b)" % (c(x), T, op, T)))
                        body += 's.g1 = g; s.v = a; s.g2 = g; s.v %s= b; feq%d(%s, %s(ra, rb), "assign%s"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (op, x[1], fbits("s.v", x), r, op)
                    g.fn("asg_%s_%s" % (nm(x), nm(y)), body)
    for a in FLOATS:
        body = operand("a", a) + "def r: %s; def s: S_%s; def g: Word[64](7); " % (al(a), nm(a))
        for n, e in (("neg", "-a"), ("id", "a"), ("inc", "a + (%s)1" % c(a)), ("dec", "a - (%s)1" % c(a))): g.ref("ref_%s_%s" % (n, nm(a)), 1, cop("a", a) + fret(a, e))
        k = a[1]
        body += 'r = -a; feq%d(%s, ref_neg_%s(ra), "neg"); r = +a; feq%d(%s, ref_id_%s(ra), "plus"); ' % (k, fbits("r", a), nm(a), k, fbits("r", a), nm(a))
        for n, e, res, new in (("preinc", "++s.v", "inc", "inc"), ("predec", "--s.v", "dec", "dec"), ("postinc", "s.v++", "id", "inc"), ("postdec", "s.v--", "id", "dec")):
            body += 's.g1 = g; s.v = a; s.g2 = g; r = %s; feq%d(%s, ref_%s_%s(ra), "%s value"); feq%d(%s, ref_%s_%s(ra), "%s target"); eq(s.g1, g, "guard"); eq(s.g2, g, "guard"); ' % (e, k, fbits("r", a), res, nm(a), n, k, fbits("s.v", a), new, nm(a), n)
        g.fn("una_%s" % nm(a), body)
    g.ref("feq64c", 2, "return (ra == rb) | (nan64(ra) & nan64(rb));"); g.ref("feq32c", 2, "return ((uint32_t)ra == (uint32_t)rb) | (nan32(ra) & nan32(rb));")
    ex = "".join("    class S_%s { def g1: Word[64]; def v: %s; def g2: Word[64]; };\n" % (nm(a), al(a)) for a in FLOATS)
    ex += "".join('    func feq%d(a: Word[64], b: Int[64], n: ptr[array[Word[8]]]) { Vx.checkI(feq%dc(a, b)~cast[Int[32]], n); }\n' % (k, k) for k in (32, 64))
    return g.out(ex)

def conversions(tier):
    g = G(); S = []
    g.ref("feq64c", 2, "return (ra == rb) | (nan64(ra) & nan64(rb));"); g.ref("feq32c", 2, "return ((uint32_t)ra == (uint32_t)rb) | (nan32(ra) & nan32(rb));")
    ex = "".join('    func feq%d(a: Word[64], b: Int[64], n: ptr[array[Word[8]]]) { Vx.checkI(feq%dc(a, b)~cast[Int[32]], n); }\n' % (k, k) for k in (32, 64))
    for t in INTS + FLOATS:
        ex += "    func id_%s(v: %s): %s { return v; }\n    class C_%s { def g1: Word[64]; def v: %s; def g2: Word[64]; };\n" % (nm(t), al(t), al(t), nm(t), al(t))
    for a in INTS + FLOATS:
        for b in INTS + FLOATS:
            body = operand("a", a); r = "ref_cv_%s_%s" % (nm(a), nm(b))
            if b[0] == "f": g.ref(r, 1, cop("a", a) + fret(b, "(%s)a" % c(b)))
            else: g.ref(r, 1, cop("a", a) + "return (L)(%s)a;" % c(b))
            if a[0] == "f" and b[0] != "f":
                lo, hi = (-(2.0 ** (b[1] - 1)), 2.0 ** (b[1] - 1)) if b[0] == "i" else (-1.0, 2.0 ** b[1])
                p = "ok_cv_%s_%s" % (nm(a), nm(b)); lop = ">" if b[0] == "w" or (b[0] == "i" and b[1] <= 32 and a[1] == 64) else ">="
                if lop == ">" and b[0] == "i": lo -= 1
                g.ref(p, 1, cop("a", a) + "return a %s (%s)%r && a < (%s)%r;" % (lop, c(a), lo, c(a), hi)); body += "Vx.assumeI(%s(ra)~cast[Int[32]]); " % p
            def chk(e, what):
                if b[0] == "f": return 'feq%d(%s, %s(ra), "%s"); ' % (b[1], fbits(e, b), r, what)
                return 'eq(%s, %s(ra), "%s"); ' % (e, r, what)
            body += "def s: C_%s; s.g1 = 11; s.g2 = 22; s.v = a; %s" % (nm(b), chk("s.v", "assignment"))
            body += 'eq(s.g1, 11, "guard"); eq(s.g2, 22, "guard"); def x: %s; x = a~cast[%s]; %s' % (al(b), al(b), chk("x", "explicit cast"))
            body += "def y: %s(a); %s" % (al(b), chk("y", "initialisation"))
            body += "def z: %s; z = id_%s(a); %s" % (al(b), nm(b), chk("z", "argument and result"))
            g.fn("cv_%s_%s" % (nm(a), nm(b)), body)
    for b in INTS + FLOATS:
        body = 'def raw: Word[8]; raw = Vx.u8("a"); def a: Bool; a = raw >= 128; def x: %s; x = a; def want: %s; if raw >= 128 { want = 1; Vx.cover("true") } else { want = 0; Vx.cover("false") } ' % (al(b), al(b))
        body += 'Vx.check(x == want, "boolean to number"); x = a~cast[%s]; Vx.check(x == want, "boolean cast");' % al(b)
        g.fn("cvb_%s" % nm(b), body)
    g.fn("cv_ptr", 'def n: ArchWord; n = Vx.u64("n")~cast[ArchWord]; def p: ptr[Int[32]]; p = n~cast[ptr[Int[32]]]; def m: ArchWord; m = p~cast[ArchWord]; Vx.check(m == n, "integer to pointer and back"); def q: ptr[Word[8]]; q = p~cast[ptr[Word[8]]]; m = q~cast[ArchWord]; Vx.check(m == n, "pointer to pointer and back"); def i: ArchInt; i = n; p = i~cast[ptr[Int[32]]]; Vx.check(p~cast[ArchInt] == i, "signed round trip");')
    return g.out(ex)

if __name__ == "__main__":
    a, b = ints("quick"); print(len(a), len(b))

# ---------------------------------------------------------------- C05: priorities and grouping
LEVELS = [["&&", "||", "and", "or"], ["==", "!=", "<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"], ["&", "|", "$", "<<", ">>"]]
LEVEL = {o: i for i, l in enumerate(LEVELS) for o in l}
def fold(ops):
    """leaf indices 0..n as documented: the tightest operators first, equal ones from the left"""
    items = list(range(len(ops) + 1)); ops = list(ops)
    while ops:
        m = max(LEVEL[o] for o in ops); i = next(k for k, o in enumerate(ops) if LEVEL[o] == m)
        items[i:i + 2] = [(ops[i], items[i], items[i + 1])]; del ops[i]
    return items[0]
def typed(t, want=None, leaves=None):
    """gives every leaf a type ('b' or 'i'); returns the type of t or None when no typing exists"""
    if isinstance(t, int):
        if want is None: want = "i"
        leaves[t] = want; return want
    o, l, r = t; lv = LEVEL[o]
    if lv == 0: res = "b" if typed(l, "b", leaves) == "b" and typed(r, "b", leaves) == "b" else None
    elif lv == 1:
        lt = None if isinstance(l, int) else typed(l, None, leaves); rt = None if isinstance(r, int) else typed(r, None, leaves)
        if not isinstance(l, int) and lt is None or not isinstance(r, int) and rt is None: return None
        k = lt or rt or "i"
        if lt and rt and lt != rt: return None
        if k == "b" and o not in ("==", "!="): return None
        for x in (l, r):
            if isinstance(x, int): leaves[x] = k
        res = "b"
    else: res = "i" if typed(l, "i", leaves) == "i" and typed(r, "i", leaves) == "i" else None
    return res if want is None or want == res else None
def text(ops, leaves): return " ".join(x for i in range(len(leaves)) for x in ([leaves[i]] + ([ops[i]] if i < len(ops) else [])))
def paren(t, v): return v[t] if isinstance(t, int) else "(%s %s %s)" % (paren(t[1], v), t[0], paren(t[2], v))
def cexpr(t, v):
    if isinstance(t, int): return v[t]
    o, l, r = t; a, b = cexpr(l, v), cexpr(r, v)
    if o in ("&&", "and"): return "(%s && %s)" % (a, b)
    if o in ("||", "or"): return "(%s || %s)" % (a, b)
    if o in LEVELS[1]: return "(%s %s %s)" % (a, o, b)
    return "%s(%s, %s)" % ({"+": "add_", "-": "sub_", "*": "mul_", "/": "div_", "%": "rem_", "&": "and_", "|": "or_", "$": "xor_", "<<": "shl_", ">>": "shr_"}[o], a, b)
PREC_C = """static int bad;
typedef int32_t I; typedef uint32_t W;
static I add_(I a, I b) { return (I)((W)a + (W)b); } static I sub_(I a, I b) { return (I)((W)a - (W)b); } static I mul_(I a, I b) { return (I)((W)a * (W)b); }
static I div_(I a, I b) { if (b == 0 || (b == -1 && a == INT32_MIN)) { bad = 1; return 0; } return a / b; }
static I rem_(I a, I b) { if (b == 0 || (b == -1 && a == INT32_MIN)) { bad = 1; return 0; } return a % b; }
static I and_(I a, I b) { return a & b; } static I or_(I a, I b) { return a | b; } static I xor_(I a, I b) { return a ^ b; }
static I shl_(I a, I b) { if (b < 0 || b > 31) { bad = 1; return 0; } return (I)((W)a << b); }
static I shr_(I a, I b) { if (b < 0 || b > 31) { bad = 1; return 0; } return a >> b; }
L valid(U x) { return !bad; }
"""
PREC_PARTS = {"pairs": lambda g: g.startswith("pair") and not g.endswith("_par"), "parentheses": lambda g: g.endswith("_par"), "triples": lambda g: g.startswith("triple"), "others": lambda g: not g.startswith("pair") and not g.startswith("triple")}
def precedence(tier, part):
    g = G(); g.c.append(PREC_C); g.decl.append("@expname[valid] func valid(x: Word[64]): Int[64];")
    iv, bv = "abcd", "pqst"; n = [0]; body = {}
    decl = "".join(operand(v, ("i", 32)) for v in iv) + "".join('def r%s: Word[64]; r%s = Vx.u64("%s"); def %s: Bool; %s = r%s & 1 != 0; ' % (v, v, v, v, v, v) for v in bv)
    cdecl = "".join("I %s = (I)r%s; " % (v, "abcdefgh"[i]) for i, v in enumerate(iv)) + "".join("int %s = (int)(r%s & 1); " % (v, "abcdefgh"[i + 4]) for i, v in enumerate(bv)) + "bad = 0; "
    def emit(group, src, tree, leaves, what=None):
        n[0] += 1; name = "ref_%d" % n[0]
        t = typed(tree, None, [None] * len(leaves)); w = cexpr(tree, leaves)
        g.ref(name, 8, cdecl + "L r_ = (L)%s; (void)p; return r_;" % w)
        s = src if t == "i" else "(%s)" % src
        body.setdefault(group, []).append('{ def want: Int[64]; want = %s(ra, rb, rc, rd, rp, rq, rs, rt); if valid(0) != 0 { def got: Int[64]; got = (%s)~cast[Int[64]]; eq(got, want, "%s"); } }' % (name, src, (what or src).replace("%", "%")))
    def leaves_of(tree, k):
        lv = [None] * k
        if typed(tree, None, lv) is None: return None
        return [(iv if x == "i" else bv)[i] for i, x in enumerate(lv)]
    allops = [o for l in LEVELS for o in l]
    for o1 in allops:
        for o2 in allops:
            tree = fold([o1, o2]); lv = leaves_of(tree, 3)
            gid = "pair_%d_%d" % (LEVEL[o1], allops.index(o1))
            if lv: emit(gid, text([o1, o2], lv), tree, lv)
            for tree, left in (((o2, (o1, 0, 1), 2), 1), ((o1, 0, (o2, 1, 2)), 0)):
                lv = leaves_of(tree, 3)
                if lv: emit(gid + "_par", ("(%s %s %s) %s %s" if left else "%s %s (%s %s %s)") % (lv[0], o1, lv[1], o2, lv[2]), tree, lv)
    # three operators: every triple of levels, operators rotating
    k = 0; rounds = 1 if tier == "quick" else 6
    for rnd in range(rounds):
        for l1 in range(5):
            for l2 in range(5):
                for l3 in range(5):
                    ops = []
                    for l in (l1, l2, l3): k += 1; ops.append(LEVELS[l][(k * 7 + rnd + k // 5) % len(LEVELS[l])])
                    tree = fold(ops); lv = leaves_of(tree, 4)
                    if lv is None: ops = [o if LEVEL[o] != 1 else "==" for o in ops]; tree = fold(ops); lv = leaves_of(tree, 4)
                    if lv: emit("triple_%d_%d_%d" % (rnd, l1, l2), text(ops, lv), tree, lv)
    # unary operators bind tighter than every binary one
    un = {"-": lambda v: "sub_(0, %s)" % v, "!": lambda v: "(~%s)" % v, "+": lambda v: v}
    for o in allops:
        if LEVEL[o] == 0:
            tree = (o, 0, 1)
            for pre in ("!!", "not "):
                for vs, cs in (((pre + "p", "q"), ("(!p)", "q")), (("p", pre + "q"), ("p", "(!q)"))):
                    src = "%s %s %s" % (vs[0], o, vs[1]); emit("unary", src, tree, list(cs), src)
            continue
        for s, f in un.items():
            for vs, cs in (((s + "a", "b"), (f("a"), "b")), (("a", s + "b"), ("a", f("b")))):
                src = "%s %s %s" % (vs[0], o, vs[1]); emit("unary_%d" % LEVEL[o], src, (o, 0, 1), list(cs), src)
        # casts, member access and postfix operators bind tighter still
        for vs, cs in ((("-a~cast[Int[8]]", "b"), ("(I)(int8_t)(0 - (W)a)", "b")) if LEVEL[o] < 3 else (("-a~ptr~cnt", "b"), ("sub_(0, a)", "b")), (("a", "b~cast[Int[8]]"), ("a", "(int8_t)b"))):
            src = "%s %s %s" % (vs[0], o, vs[1]); emit("cast_%d" % LEVEL[o], src, (o, 0, 1), list(cs), src)
    # assignments come last and group from the right
    for o in [x for x in allops if LEVEL[x] > 1]:
        for asg, f in (("=", None), ("+=", "add_"), ("-=", "sub_"), ("*=", "mul_"), ("|=", "or_"), ("&=", "and_"), ("$=", "xor_")):
            n[0] += 1; name = "ref_%d" % n[0]; e = cexpr((o, 0, 1), ["a", "b"]); e = "%s(c, %s)" % (f, e) if f else e
            g.ref(name, 8, cdecl + "L r_ = (L)%s; return r_;" % e)
            src = "x %s a %s b" % (asg, o)
            body.setdefault("assign_%d" % LEVEL[o], []).append('{ def want: Int[64]; want = %s(ra, rb, rc, rd, rp, rq, rs, rt); if valid(0) != 0 { def x: Int[32]; x = c; %s; eq(x, want, "%s"); } }' % (name, src, src))
    for i, (s1, s2) in enumerate((x, y) for x in ("=", "+=", "-=", "*=", "$=") for y in ("=", "+=", "-=", "|=", "<<=")):
        fn = {"=": lambda x, y: y, "+=": lambda x, y: "add_(%s, %s)" % (x, y), "-=": lambda x, y: "sub_(%s, %s)" % (x, y), "*=": lambda x, y: "mul_(%s, %s)" % (x, y), "$=": lambda x, y: "xor_(%s, %s)" % (x, y), "|=": lambda x, y: "or_(%s, %s)" % (x, y), "<<=": lambda x, y: "shl_(%s, %s)" % (x, y)}
        n[0] += 1; ye = fn[s2]("b", "c"); xe = fn[s1]("a", ye); g.ref("ref_y%d" % i, 8, cdecl + "return (L)%s;" % ye); g.ref("ref_x%d" % i, 8, cdecl + "return (L)%s;" % xe)
        src = "x %s y %s c" % (s1, s2)
        body.setdefault("assign_chain", []).append('{ def want: Int[64]; want = ref_x%d(ra, rb, rc, rd, rp, rq, rs, rt); if valid(0) != 0 { def x: Int[32]; x = a; def y: Int[32]; y = b; %s; eq(x, want, "%s"); eq(y, ref_y%d(ra, rb, rc, rd, rp, rq, rs, rt), "%s"); } }' % (i, src, src, i, src))
    used = set()
    for gid, l in sorted(body.items()):
        if PREC_PARTS[part](gid): used |= set(re.findall(r"\bref_\w+", " ".join(l)))
    g.decl = [d for d in g.decl if "valid" in d or re.search(r"func (ref_\w+)", d).group(1) in used]; g.c = [x for x in g.c if not re.match(r"L (ref_\w+)\(", x) or re.match(r"L (ref_\w+)\(", x).group(1) in used]
    for gid, l in sorted(body.items()):
        if not PREC_PARTS[part](gid): continue
        for j in range(0, len(l), 12): g.fn("%s_%d" % (gid, j // 12), decl + " ".join(l[j:j + 12]))
    return g.out()

def literals(tier):
    """Integer constants of every base where the language uses them: operands, array sizes, bit counts, loop jumps."""
    g = G(); V = [0, 1, 2, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100]
    for k in (7, 8, 15, 16, 31, 32, 48, 62): V += [2 ** k - 1, 2 ** k, 2 ** k + 1]
    V += [2 ** 63 - 1]
    if tier == "thorough": V += [3 ** i for i in range(2, 40)] + [2 ** 62 + 2 ** i for i in range(0, 62, 3)]
    V = sorted(set(v for v in V if v < 2 ** 63))
    sp = {"d": lambda v: "%d" % v, "b": lambda v: "0b" + bin(v)[2:], "o": lambda v: "0o" + oct(v)[2:], "h": lambda v: "0h" + hex(v)[2:], "x": lambda v: "0x" + hex(v)[2:].upper(), "B": lambda v: "0B" + bin(v)[2:], "ن": lambda v: "0ن" + bin(v)[2:], "م": lambda v: "0م" + oct(v)[2:], "z": lambda v: "000" + "%d" % v}
    for v in V:
        body = 'def x: Word[64]; x = Vx.u64("x"); '; r = "ref_add_%d" % v; g.ref(r, 1, "return (L)(ra + %dull);" % v)
        for b, f in sp.items(): body += 'eq((x + %s)~cast[Int[64]], %s(x), "base %s"); ' % (f(v), r, b if ord(b) < 128 else {"ن": "bin ar", "م": "oct ar"}[b])
        if v < 2 ** 32: body += 'def w: Word[32]; w = x~cast[Word[32]]; w = w + %du; eq(w~cast[Int[64]], %s_w(x), "unsigned"); ' % (v, r); g.ref(r + "_w", 1, "return (L)(uint64_t)(uint32_t)((uint32_t)ra + %du);" % v)
        for n in (8, 16, 32, 64):
            if v < 2 ** (n - 1): body += 'eq(%di%d~cast[Int[64]], %s(0), "signed %d"); eq(-%di%d~cast[Int[64]], %s_n(0), "negated %d"); ' % (v, n, r, n, v, n, r, n)
            if v < 2 ** n: body += 'eq(%dui%d~cast[Int[64]], %s(0), "unsigned %d"); ' % (v, n, r, n)
        g.ref(r + "_n", 1, "return (L)-(int64_t)%dull;" % v)
        g.fn("v%d" % v, body)
    for v in (1, 2, 8, 10, 16, 63, 64, 100):
        body = ""
        for b, f in sp.items(): body += 'def a_%d: array[Word[8], %s]; eq(a_%d~size, %d, "array size"); ' % (len(body), f(v), len(body), v)
        g.fn("array%d" % v, body)
    for n in (8, 16, 32, 64):
        body = 'def x: Word[64]; x = Vx.u64("x"); '; r = "ref_w%d" % n; g.ref(r, 1, "return (L)(uint64_t)(uint%d_t)ra;" % n); g.ref(r + "i", 1, "return (L)(int%d_t)ra;" % n)
        for i, (b, f) in enumerate(sp.items()): body += 'def w%d: Word[%s]; w%d = x~cast[Word[%s]]; eq(w%d~cast[Int[64]], %s(x), "bit count"); eq(x~cast[Int[%s]]~cast[Int[64]], %si(x), "bit count"); ' % (i, f(n), i, f(n), i, r, f(n), r)
        g.fn("bits%d" % n, body)
    for i, (b, f) in enumerate(sp.items()):
        for k in (1, 2, 3):
            r = "ref_brk%d" % k
            if i == 0: g.ref(r, 1, "int n = 0; for (int a = 0; a < 2; a++) { for (int b = 0; b < 2; b++) { for (int c = 0; c < 2; c++) { n++; if (n == (int)ra) goto out%d; } %s } %s n += 20; } out3: return n;" % (k, "n += 5; continue; out1: n += 5;" if k == 1 else "n += 5;", "out2: ;" if k == 2 else ""))
            # every loop body counts differently, so that the target of the jump shows in the result
            g.fn("brk%d_%d" % (k, i), 'def s: Word[64]; s = Vx.u64("s"); Vx.assume(s < 9ui64); def n: Int[64] = 0; def a: Int[32]; def b: Int[32]; def c: Int[32]; for a = 0, a < 2, ++a { for b = 0, b < 2, ++b { for c = 0, c < 2, ++c { n = n + 1; if n == s~cast[Int[64]] { break %s }; }; n = n + 5; }; n = n + 20; }; eq(n, %s(s), "break"); ' % (f(k), r))
    return g.out()
