"""C14: template code against the same code specialised by hand, and closures against the same statements written out."""
import random
NUM = ["Int[8]", "Int[16]", "Int[32]", "Int[64]", "Word[8]", "Word[16]", "Word[32]", "Word[64]", "Float[32]", "Float[64]"]
SIZE = {"Int[8]": 1, "Int[16]": 2, "Int[32]": 4, "Int[64]": 8, "Word[8]": 1, "Word[16]": 2, "Word[32]": 4, "Word[64]": 8, "Float[32]": 4, "Float[64]": 8}
C = """#include "vx.h"
#include <string.h>
static uint8_t B[2][600]; static int n_[2];
void g_reset(void) { n_[0] = n_[1] = 0; }
void g_fill(void *p, int32_t n) { vx_sym(p, n, "v"); if (n == 4 || n == 8) ; }
void g_small(void *p, int32_t n) { int32_t v = vx_range(-4, 5, "v"); if (n == 4) { float f = v; memcpy(p, &f, 4); } else { double d = v; memcpy(p, &d, 8); } }
void g_ev(int32_t s, void *p, int32_t n) { memcpy(B[s] + n_[s], p, n); n_[s] += n; }
void g_evs(int32_t s, char *p) { for (; *p; p++) B[s][n_[s]++] = *p; }
void g_evi(int32_t s, int64_t v) { memcpy(B[s] + n_[s], &v, 8); n_[s] += 8; }
void g_cmp(void) { vx_assert(n_[0] == n_[1], "number of results"); int bad = 0; for (int i = 0; i < n_[0] && i < n_[1]; i++) bad |= B[0][i] != B[1][i]; vx_assert(!bad, "template and specialised code differ"); }
"""
AL = """import "closure";
module H {
    use Srl;
    @expname[g_reset] func gReset();
    @expname[g_fill] func gFill(p: ptr, n: Int[32]);
    @expname[g_small] func gSmall(p: ptr, n: Int[32]);
    @expname[g_ev] func gEv(s: Int[32], p: ptr, n: Int[32]);
    @expname[g_evs] func gEvs(s: Int[32], p: ptr[array[Word[8]]]);
    @expname[g_evi] func gEvi(s: Int[32], v: Int[64]);
    @expname[g_cmp] func gCmp();
    def three: 3;
    func inc(x: Int[64]): Int[64] { return x + 1; }
    func inc(x: Int[64], y: Int[64]): Int[64] { return x + y + 100; }
    func dec(x: Int[64]): Int[64] { return x - 1; }
    func twice(x: Int[64]): Int[64] { return x + x; }
    module Other { func inc(x: Int[64]): Int[64] { return x + 50; } }
"""
class Tpl:
    """templates X (inner), T (outer) and functions over parameters E: type, N: integer, F: function, S: string"""
    def __init__(self, r, k):
        self.r, self.k = r, k
    def num(self, e): return "(%s)~cast[E]" % e
    def expr(self, vars_, d=2):
        r = self.r; x = r.random()
        if d == 0 or x < 0.3: return r.choice(vars_)
        if x < 0.45: return self.num(r.choice(["N", "%d" % r.randint(0, 3), "E~size"]))
        if x < 0.6: return self.num("F(%s~cast[Int[64]])" % r.choice(vars_))
        return "(%s %s %s)~cast[E]" % (self.expr(vars_, d - 1), r.choice("+-"), self.expr(vars_, d - 1))
    def text(self):
        """the text of the templates with parameters to be substituted"""
        r = self.r; k = self.k
        inner = ["class X%d_@I@ { def pad: Int[8]; def v: E; def w: array[E, M]; def t: Int[8];" % k,
            "handler this.sum(): E { def s: E = this.v; def i: Int[32]; for i = 0, i < M, ++i { s = (s + this.w(i))~cast[E]; } return s; }",
            "handler this.put(i: Int[32], x: E) { this.w(i %% %s) = %s; }" % ("M", self.expr(["x", "this.v"]).replace("N", "M").replace("F(", "twice(")), "}"]
        outer = ["class T%d_@O@ { @shared def made: Int[32]; def a: E; def arr: array[E, N]; def inn: X%d_@E@@2@; def b: Int[16]; def mine: Int[64]; def deep: array[X%d_@E@@1@, 2];" % (k, k, k),
            "handler this~init() { made = made + 1; this.mine = made; this.a = 0; this.b = 0; def i: Int[32]; for i = 0, i < N, ++i { this.arr(i) = 0; } this.inn.v = 0; this.inn.w(0) = 0; this.inn.w(1) = 0; this.deep(0).v = 0; this.deep(0).w(0) = 0; this.deep(1).v = 0; this.deep(1).w(0) = 0; }",
            "handler this~init(o: ref[this_type]) { made = made + 1; this.copy(o); } handler this = ref[this_type] { this.copy(value); }",
            "handler this.copy(o: ref[this_type]) { this.mine = o.mine; this.a = o.a; this.b = o.b; this.arr = o.arr; this.inn = o.inn; this.deep = o.deep; }",
            "handler this.step(x: E): E { this.a = %s; this.inn.put(1, x); this.deep(1).put(0, %s); return %s; }" % (self.expr(["x", "this.a", "this.arr(0)"]), self.expr(["x", "this.a"]), self.expr(["x", "this.a", "this.inn.sum()", "this.deep(1).sum()"])),
            "handler this.set(i: Int[32], x: E) { this.arr(i %% N) = %s; ++this.b; }" % self.expr(["x", "this.a"]),
            "handler this.name(s: Int[32]) { gEvs(s, S); gEvi(s, made); gEvi(s, this.mine); gEvi(s, T%d_@O@~size); gEvi(s, N); }" % k,
            "handler this + E: E { return %s; }" % self.expr(["value", "this.a", "this.arr(0)"]), "}"]
        fun = "func @FN@(x: E, n: Int[32]): E { @shared_def@ def o: T%d_@O@; o.a = x; if n == 0 return %s; o.set(n, x); return @FN@(%s, n - 1); }" % (k, self.expr(["x", "o.a"]), self.expr(["x", "o.arr(0)"]))
        return " ".join(inner), " ".join(outer), fun.replace("@shared_def@", "")
    def generate(self):
        r = self.r; k = self.k; inner, outer, fun = self.text(); defs, main = [], ["gReset();"]
        # the templates
        defs.append(inner.replace("X%d_@I@" % k, "X%d [E: type, M: integer = 2]" % k))
        o = outer.replace("class T%d_@O@" % k, "class T%d [E: type, N: integer, F: function, S: string = \"plain\"]" % k).replace("X%d_@E@@2@" % k, "X%d[E]" % k).replace("X%d_@E@@1@" % k, "X%d[E, 1]" % k).replace("T%d_@O@~size" % k, "this~size")
        defs.append(o)
        defs.append(fun.replace("func @FN@(", "func fn%d [E: type, N: integer, F: function, S: string] (" % k).replace("@FN@", "fn%d[E, N, F, S]" % k).replace("T%d_@O@" % k, "T%d[E, N, F, S]" % k))
        # the argument lists: near misses of one another
        base = (r.choice(NUM), r.randint(1, 3), r.choice(["inc", "dec", "twice", "Other.inc"]), r.choice([None, "x", "xy", "X", ""]))
        lists = [base]
        while len(lists) < 4:
            b = list(r.choice(lists)); i = r.randrange(4)
            b[i] = [r.choice(NUM), r.randint(1, 3), r.choice(["inc", "dec", "twice", "Other.inc"]), r.choice([None, "x", "xy", "X", "plain"])][i]
            if tuple("plain" if q is None else q for q in b) not in [tuple("plain" if q is None else q for q in y) for y in lists]: lists.append(tuple(b))
        ev, objs = [], []; done = set()
        for j, (E, N, F, S) in enumerate(lists):
            # hand specialised classes
            name = "S%d_%d" % (k, j); sub = lambda t: sub_(t, E, N, F, ("plain" if S is None else S))
            if E not in done:
                done.add(E); e = NUM.index(E)
                for M in (1, 2): defs.append(sub_(inner.replace("X%d_@I@" % k, "XS%d_%d_%d" % (k, e, M)), E, N, F, ("plain" if S is None else S), M))
            e = NUM.index(E); o = outer.replace("T%d_@O@" % k, name).replace("X%d_@E@@2@" % k, "XS%d_%d_2" % (k, e)).replace("X%d_@E@@1@" % k, "XS%d_%d_1" % (k, e))
            defs.append(sub(o)); defs.append(sub(fun.replace("@FN@", "fs%d_%d" % (k, j)).replace("T%d_@O@" % k, name)))
            Na = {3: r.choice(["3", "three", "3"])}.get(N, str(N))
            args = "%s, %s, %s%s" % (E, Na, F, "" if S is None else ', "%s"' % S)
            if r.random() < 0.3: defs.append("def AL%d_%d: alias T%d[%s];" % (k, j, k, args)); tt = "AL%d_%d" % (k, j)
            else: tt = "T%d[%s]" % (k, args)
            main.append("def t%d: %s; def s%d: %s;" % (j, tt, j, name)); objs.append((j, E, N, F, S, tt, name))
        for n in range(r.randint(4, 8)):
            j, E, N, F, S, tt, name = r.choice(objs); v = "x%d" % n; z = SIZE[E]; x = r.randint(0, 6)
            main.append("def %s: %s; %s(%s~ptr, %d);" % (v, E, "gSmall" if E.startswith("Float") else "gFill", v, z))
            if x <= 1:
                for s, ob in enumerate("ts"): main.append("{ def y: %s = %s%d.step(%s); gEv(%d, y~ptr, %d); }" % (E, ob, j, v, s, z))
            elif x == 2:
                for s, ob in enumerate("ts"): main.append("%s%d.set(%d, %s);" % (ob, j, n, v))
            elif x == 3:
                for s, ob in enumerate("ts"): main.append("{ def y: %s = %s%d + %s; gEv(%d, y~ptr, %d); }" % (E, ob, j, v, s, z))
            elif x == 4:
                fa = "%s, %d, %s, \"%s\"" % (E, N, F, ("plain" if S is None else S))
                for s, f in enumerate(["fn%d[%s]" % (k, fa), "fs%d_%d" % (k, j)]): main.append("{ def y: %s = %s(%s, %d); gEv(%d, y~ptr, %d); }" % (E, f, v, n % 3, s, z))
            elif x == 5:  # equal arguments denote the same type: assignment and references between them, whatever the spelling
                t2 = "T%d[%s, %d, %s, \"%s\"]" % (k, E, N, F, ("plain" if S is None else S))
                main.append("def o%d: %s = t%d; def q%d: ref[%s](t%d); q%d.a = %s; t%d = o%d; o%d.step(%s);" % (n, t2, j, n, t2, j, n, v, j, n, n, v))
                main.append("def p%d: %s = s%d; s%d.a = %s; s%d = p%d; p%d.step(%s);" % (n, name, j, j, v, j, n, n, v))
            else:
                for s, ob in enumerate("ts"): main.append("%s%d.name(%d);" % (ob, j, s))
        for j, E, N, F, S, tt, name in objs:
            for s, ob in enumerate("ts"):
                main.append("%s%d.name(%d); gEv(%d, %s%d.a~ptr, %d); gEv(%d, %s%d.inn.w(1)~ptr, %d); gEv(%d, %s%d.b~ptr, 2); gEv(%d, %s%d.deep(1).w(0)~ptr, %d); gEvi(%d, %s%d.mine);" % (ob, j, s, s, ob, j, SIZE[E], s, ob, j, SIZE[E], s, ob, j, s, ob, j, SIZE[E], s, ob, j))
                for i in range(N): main.append("gEv(%d, %s%d.arr(%d)~ptr, %d);" % (s, ob, j, i, SIZE[E]))
        main.append("gCmp();")
        return "\n    ".join(defs) + "\n    func t_template%d() { %s }" % (k, "\n        ".join(main))

def sub_(t, E, N, F, S, M=None):
    import re
    t = re.sub(r"\bE\b", E, t); t = re.sub(r"\bN\b", str(N), t); t = re.sub(r"\bF\(", F + "(", t); t = re.sub(r"\bS\)", '"%s")' % S, t)
    return re.sub(r"\bM\b", str(M), t) if M else t

class Clo:
    T = ["Int[8]", "Int[32]", "Int[64]", "Word[16]"]
    def __init__(self, r, k): self.r, self.k = r, k
    def body(self, caps, depth=1):
        """statement templates over names {n}; caps: [(name, type, mode)]; the result goes to res"""
        r = self.r; out = []
        for _ in range(r.randint(1, 3)):
            n, t, mode = r.choice(caps); x = r.randint(0, 3)
            if mode == "by_ref":
                s = r.choice(["{%s} = ({%s} + x)~cast[%s];" % (n, n, t), "{%s} = x~cast[%s];" % (n, t), "++{%s};" % n, "{%s} += 7;" % n])
                if x == 0: s = "if x > 0 { %s }" % s.replace("{" + n + "}", "\1") if False else "if x > 0 res = res + 1; " + s
                out.append(s)
            else: out.append("{%s} = ({%s} + 3)~cast[%s]; res = res + {%s}; {%s} = ({%s} - 3)~cast[%s];" % (n, n, t, n, n, n, t))
        out.append("res = res + x" + "".join(" + {%s}" % n for n, _, _ in caps) + ";")
        return " ".join(out)
    @staticmethod
    def fill(text, m):
        for n in m: text = text.replace("{%s}" % n, m[n])
        return text
    def generate(self):
        r = self.r; k = self.k; defs, main = [], ["gReset();"]; outer = []; clos = []
        for i in range(r.randint(2, 4)):
            t = r.choice(self.T); n = "v%d" % i; outer.append((n, t)); main.append("def %s: %s; gFill(%s~ptr, %d); def m_%s: %s = %s;" % (n, t, n, SIZE[t], n, t, n))
        refs = []
        if r.random() < 0.5: n, t = outer[0]; main.append("def rv: ref[%s](%s);" % (t, n)); refs = [("rv", t)]
        for c in range(r.randint(1, 3)):
            esc = r.random() < 0.35; spec, body_caps, payload = [], [], []
            cand = r.sample(outer, r.randint(1, len(outer)))
            if refs and not esc and r.random() < 0.5: cand.append(refs[0])
            for n, t in cand:
                mode = r.choice(["by_ref", "by_val", "auto"]) if not esc else r.choice(["by_val", "auto"])
                if mode != "auto": spec.append("%s: %s" % (n, mode))
                body_caps.append((n, t, "by_ref" if mode == "by_ref" else "by_val"))
            b = self.body(body_caps); head = "(%s)&" % ", ".join(spec) if spec else ""
            fn = "closure %s(x: Int[64]): Int[64] { def res: Int[64] = 0; %s return res; }" % (head, self.fill(b, {n: n for n, _, _ in body_caps}))
            m = {}
            if esc:
                defs.append("func mk%d_%d(%s): (closure (x: Int[64]): Int[64]) { return %s; }" % (k, c, ", ".join("%s: %s" % (n, t) for n, t in cand), fn)); make = "mk%d_%d(%s)" % (k, c, ", ".join(n for n, _ in cand))
            else: make = fn
            how = r.randint(0, 2)
            if how == 0: main.append("def c%d: closure (x: Int[64]): Int[64] = %s;" % (c, make)); ce = "c%d" % c
            elif how == 1: main.append("def c%d: closure (x: Int[64]): Int[64]; c%d = %s;" % (c, c, make)); ce = "c%d" % c
            else: main.append("def h%d: Hold; h%d.c = %s;" % (c, c, make)); ce = "h%d.c" % c
            for n, t, mode in body_caps:
                src = "m_v0" if n == "rv" else "m_" + n
                if mode == "by_val": main.append("def p%d_%s: %s = %s;" % (c, n, t, src)); m[n] = "p%d_%s" % (c, n)
                else: m[n] = src
            clos.append((ce, self.fill(b, m)))
            for _ in range(r.randint(1, 3)): self.step(main, outer, clos)
        for _ in range(r.randint(1, 3)): self.step(main, outer, clos)
        for n, t in outer: main.append("gEv(0, %s~ptr, %d); gEv(1, m_%s~ptr, %d);" % (n, SIZE[t], n, SIZE[t]))
        main.append("gCmp();")
        return "\n    ".join(defs) + "\n    func t_closure%d() { %s }" % (k, "\n        ".join(main))
    u = 0
    def step(self, main, outer, clos):
        r = self.r
        if r.random() < 0.35:
            n, t = r.choice(outer); s = r.choice(["{} = ({} + 11)~cast[%s];" % t, "++{};", "{} = {}~cast[%s];" % t]); main.append(s.replace("{}", n) + " " + s.replace("{}", "m_" + n)); return
        ce, b = r.choice(clos); Clo.u += 1; u = Clo.u; w = r.randint(0, 3); x = r.choice(["%d" % r.randint(-5, 9), r.choice(outer)[0]])
        mx = "m_" + x if x.startswith("v") else x; call = "%s(%s~cast[Int[64]])" % (ce, x)
        if w == 0: call = "run(%s, %s~cast[Int[64]])" % (ce, x)
        elif w == 1: main.append("def k%d: closure (x: Int[64]): Int[64] = %s;" % (u, ce)); call = "k%d(%s~cast[Int[64]])" % (u, x)
        main.append("gEvi(0, %s);" % call); main.append("{ def x: Int[64] = %s~cast[Int[64]]; def res: Int[64] = 0; %s gEvi(1, res); };" % (mx, b))

def templates(tier):
    A = [AL]
    for k in range(1, 1 + (25 if tier == "quick" else 120)): A.append("    " + Tpl(random.Random(k), k).generate())
    return "\n".join(A) + "\n};\n", C
def closures(tier):
    A = [AL, "    class Hold { def pad: Int[8]; def c: closure (x: Int[64]): Int[64]; }\n    func run(c: closure (x: Int[64]): Int[64], x: Int[64]): Int[64] { return c(x); }"]
    for k in range(1, 1 + (25 if tier == "quick" else 100)): A.append("    " + Clo(random.Random(k), k).generate())
    return "\n".join(A) + "\n};\n", C
