"""Generates programs for C11 (calls): functions with random signatures, called in every way the language offers; each value that crosses
the call is reported to C sinks on both sides, byte by byte."""
import random, gen_ops

SCAL = {"Int[8]": 1, "Int[16]": 2, "Int[32]": 4, "Int[64]": 8, "Word[8]": 1, "Word[16]": 2, "Word[32]": 4, "Word[64]": 8, "Float[32]": 4, "Float[64]": 8, "ptr[Int[32]]": 8, "Bool": 1}
STRUCT = {}

C = """#include "vx.h"
#include <string.h>
#include <stdarg.h>
enum { NQ = 12, MAXB = 512 };
static uint8_t Q[NQ][MAXB]; static int put_[NQ], got_[NQ], nq; static int32_t cells[64]; static uint8_t keepB[64][128]; static int nCells, trace[64], nTrace;
void k_reset(void) { nq = nCells = nTrace = 0; }
int32_t k_queue(void) { if (nq >= NQ) { vx_fail("too many calls"); } put_[nq] = got_[nq] = 0; return nq++; }
void k_put(int32_t q, void *p, int32_t n) { memcpy(Q[q] + put_[q], p, n); put_[q] += n; }
void k_got(int32_t q, void *p, int32_t n) { uint8_t *b = p; vx_assert(got_[q] + n <= put_[q], "parameter count"); int bad = 0; for (int i = 0; i < n; i++) bad |= b[i] != Q[q][got_[q] + i]; got_[q] += n; vx_assert(!bad, "value crossing a call"); }
void k_done(int32_t q) { vx_assert(got_[q] == put_[q], "every value crossed the call"); }
void k_change(void *p, int32_t n, int32_t boolean) { uint8_t *b = p; for (int i = 0; i < n; i++) b[i] = boolean ? !b[i] : b[i] ^ (0x5a + i); }
void k_fill(void *p, int32_t n, int32_t boolean) { vx_sym(p, n, "v"); if (boolean) vx_assume(*(uint8_t *)p < 2); }
int32_t *k_cell(void) { cells[nCells] = nCells; return &cells[nCells++]; }
void k_cellFill(int32_t **p) { *p = k_cell(); }
void k_keep(int32_t s, void *p, int32_t n) { memcpy(keepB[s], p, n); }
void k_same(int32_t s, void *p, int32_t n) { vx_assert(!memcmp(keepB[s], p, n), "caller's variable unchanged"); }
void k_which(int32_t id) { trace[nTrace++] = id; }
void k_ran(int32_t i, int32_t id) { vx_assert(i < nTrace && trace[i] == id, "selected function"); }
int64_t k_va(int32_t q, char *fmt, ...) { va_list l; va_start(l, fmt); for (; *fmt; fmt++) {
    if (*fmt == 'i') { int32_t v = va_arg(l, int32_t); k_got(q, &v, 4); } else if (*fmt == 'l') { int64_t v = va_arg(l, int64_t); k_got(q, &v, 8); }
    else if (*fmt == 'd') { double v = va_arg(l, double); k_got(q, &v, 8); } else { void *v = va_arg(l, void *); k_got(q, &v, 8); } } va_end(l); return 77; }
"""
AL = """module H {
    use Srl;
    @expname[k_reset] func kReset();
    @expname[k_queue] func kQueue(): Int[32];
    @expname[k_put] func kPut(q: Int[32], p: ptr, n: Int[32]);
    @expname[k_got] func kGot(q: Int[32], p: ptr, n: Int[32]);
    @expname[k_done] func kDone(q: Int[32]);
    @expname[k_change] func kChange(p: ptr, n: Int[32], b: Int[32]);
    @expname[k_fill] func kFill(p: ptr, n: Int[32], b: Int[32]);
    @expname[k_cellFill] func kCellFill(p: ptr);
    @expname[k_keep] func kKeep(s: Int[32], p: ptr, n: Int[32]);
    @expname[k_same] func kSame(s: Int[32], p: ptr, n: Int[32]);
    @expname[k_which] func kWhich(id: Int[32]);
    @expname[k_ran] func kRan(i: Int[32], id: Int[32]);
    @expname[k_va] func kVa(q: Int[32], fmt: ptr[array[Word[8]]], a: ...any): Int[64];
    func putPtr(q: Int[32], p: ptr) { kPut(q, p~ptr, 8); }
    func gotPtr(q: Int[32], p: ptr) { kGot(q, p~ptr, 8); }
    func change(p: ptr, n: Int[32], b: Int[32]) { kChange(p, n, b); }
"""

class Gen:
    def __init__(self, r, k):
        self.r, self.k, self.out, self.n = r, k, [], 0
        self.types = list(SCAL); self.structs = {}
        for i in range(3):
            name = "S%d_%d" % (k, i); members = []
            for j in range(r.randint(1, 5)):
                t = r.choice(list(SCAL) + list(self.structs) + ["A"])
                if t == "A": t = "array[%s, %d]" % (r.choice(["Int[8]", "Int[32]", "Word[16]", "Float[64]"]), r.randint(1, 4))
                members.append(("m%d" % j, t))
            self.structs[name] = members
            self.out.append("class %s { %s }" % (name, " ".join("def %s: %s;" % m for m in members)))
        self.types += list(self.structs) * 2
    def leaves(self, e, t):
        if t in SCAL: return [(e, t)]
        if t.startswith("array"):
            el, n = t[6:-1].rsplit(", ", 1); return [x for i in range(int(n)) for x in self.leaves("%s(%d)" % (e, i), el)]
        return [x for m, mt in self.structs[t] for x in self.leaves("%s.%s" % (e, m), mt)]
    def each(self, what, e, t, q=None):
        s = []
        for l, lt in self.leaves(e, t):
            b = int(lt == "Bool")
            if what in ("kPut", "kGot"): s.append("%s(%s, %s~ptr, %d);" % (what, q, l, SCAL[lt]))
            elif what == "kFill" and lt.startswith("ptr"): s.append("kCellFill(%s~ptr);" % l)
            elif what == "kChange" and lt.startswith("ptr"): s.append("%s = %s + 1;" % (l, l))
            elif what in ("kFill", "kChange"): s.append("%s(%s~ptr, %d, %d);" % (what, l, SCAL[lt], b))
            else: s.append("%s(%s, %s~ptr, %d);" % (what, self.slot(), l, SCAL[lt])) if what == "kKeep" else None
        return " ".join(s)
    def keep(self, e, t):
        a, b = [], []
        for l, lt in self.leaves(e, t):
            self.slots += 1; a.append("kKeep(%d, %s~ptr, %d);" % (self.slots - 1, l, SCAL[lt])); b.append("kSame(%d, %s~ptr, %d);" % (self.slots - 1, l, SCAL[lt]))
        return " ".join(a), " ".join(b)
    def sig(self, n):
        r = self.r; return [(r.choice(self.types), r.random() < 0.25) for _ in range(n)]
    def body(self, params, ret, ident):
        """report, change and answer: params [(name, type, byref)]"""
        s = ["kWhich(%d);" % ident]
        for n, t, ref in params:
            s.append(self.each("kGot", n, t, "q"))
            if ref: s.append("gotPtr(q, %s~ptr);" % n)
        for n, t, ref in params:
            s.append(self.each("kChange", n, t))
            if ref: s.append(self.each("kPut", n, t, "q"))
        # references to the same variable would alias; the caller never does that
        if ret:
            same = [n for n, t, ref in params if t == ret]
            if same and self.r.random() < 0.7: s.append("%s" % self.each("kPut", same[-1], ret, "q")); s.append("return %s;" % same[-1])
            else: s.append("def r: %s; %s %s return r;" % (ret, self.each("kFill", "r", ret), self.each("kPut", "r", ret, "q")))
        return " ".join(s)
    def call(self, callee, params, ret, ident, indent=""):
        """statements that call and check; callee: text of the callee, 'q' is the first argument"""
        r = self.r; pre, args, post = [], [], []; self.n += 1; u = self.n; q = "q%d" % u; pre.append("def %s: Int[32](kQueue());" % q)
        before, same, back = [], [], []
        for i, (n, t, ref) in enumerate(params):
            v = "a%d_%d" % (u, i); how = r.randint(0, 6) if not t.startswith("array") else 0
            if how <= 2: pre.append("def %s: %s;" % (v, t)); e = v
            elif how == 3: pre.append("def %s: Box[%s];" % (v, t)); e = v + ".x"
            elif how == 4: pre.append("def %s: array[%s, 3];" % (v, t)); e = "%s(%d)" % (v, r.randint(0, 2))
            elif how == 5: pre.append("def t%s: %s; def %s: ref[%s]; %s~ptr = t%s~ptr;" % (v, t, v, t, v, v)); e = v
            else: pre.append("def t%s: %s; def %s: ptr[%s]; %s = t%s~ptr;" % (v, t, v, t, v, v)); e = v + "~cnt"
            pre.append(self.each("kFill", e, t)); before.append(self.each("kPut", e, t, q))
            if ref: before.append("putPtr(%s, %s~ptr);" % (q, e)); back.append(self.each("kGot", e, t, q))
            else: a, b = self.keep(e, t); before.append(a); same.append(b)
            if not ref and r.random() < 0.15: args.append("same[%s](%s)" % (t, e))
            else: args.append(e)
        c = "%s(%s)" % (callee, ", ".join([q] + args))
        if ret:
            how = r.randint(0, 3); v = "r%d" % u
            if how == 0: c = "def %s: %s = %s;" % (v, ret, c); e = v
            elif how == 1: c = "def %s: %s; %s = %s;" % (v, ret, v, c); e = v
            elif how == 2: c = "def %s: Box[%s]; %s.x = %s;" % (v, ret, v, c); e = v + ".x"
            else: c = "def %s: %s(%s);" % (v, ret, c) if ret in SCAL else "def %s: array[%s, 2]; %s(1) = %s;" % (v, ret, v, c); e = v if ret in SCAL else v + "(1)"
            back.append(self.each("kGot", e, ret, q))
        else: c += ";"
        return " ".join(pre + before + [c] + back + same + ["kRan(%d, %d); kDone(%s);" % (self.order, ident, q)])
    def program(self):
        r = self.r; k = self.k; defs, main = self.out, []; self.slots = 0; self.order = 0; ident = 0
        for i in range(3):
            params = [("p%d" % j, t, ref) for j, (t, ref) in enumerate(self.sig(r.randint(0, 7)))]; ret = r.choice([None] + self.types * 2)
            if isinstance(ret, str) and r.random() < 0.4 and params: ret = params[r.randrange(len(params))][1]
            name = "f%d_%d" % (k, i); ident = k * 10 + i
            al = ", ".join(["q: Int[32]"] + ["%s: %s" % (n, "ref[%s]" % t if ref else t) for n, t, ref in params]); rt = ": " + ret if ret else ""
            ptr = "ptr[func (%s)%s]" % (", ".join(["Int[32]"] + ["ref[%s]" % t if ref else t for n, t, ref in params]), rt)
            how = r.randint(0, 6); b = self.body(params, ret, ident)
            if how <= 1: defs.append("func %s(%s)%s { %s }" % (name, al, rt, b)); callee = name
            elif how == 2: defs.append("func %s(%s)%s { %s }" % (name, al, rt, b)); main.append("def fp%d: %s = %s~ptr;" % (i, ptr, name)); callee = "fp%d" % i
            elif how == 3: defs.append("func %s(%s)%s { %s } class F%s { def id: Int[8]; def f: %s; }" % (name, al, rt, b, name, ptr)); main.append("def fs%d: F%s; fs%d.f = %s~ptr;" % (i, name, i, name)); callee = "fs%d.f" % i
            elif how == 4: defs.append("class M%s { def id: Int[64]; handler this.go(%s)%s { if this.id != %d kWhich(0); %s } }" % (name, al, rt, ident, b)); main.append("def o%d: M%s; o%d.id = %d;" % (i, name, i, ident)); callee = "o%d.go" % i
            elif how == 5: defs.append("class M%s { def id: Int[64]; func go(%s)%s { %s } }" % (name, al, rt, b)); callee = "M%s.go" % name
            else: defs.append("class M%s { def id: Int[64]; handler this.go(%s)%s as_ptr { if this.id != %d kWhich(0); %s } } class N%s { def pad: Int[16]; @injection def base: M%s; }" % (name, al, rt, ident, b, name, name)); main.append("def o%d: N%s; o%d.id = %d;" % (i, name, i, ident)); callee = "o%d.go" % i
            main.append(self.call(callee, params, ret, ident)); self.order += 1
        return "\n    ".join(defs) + "\n    func t_calls%d() { kReset(); %s }" % (k, " ".join(main))

def overloads(r, k):
    """one name, several signatures; every call has arguments of exactly one signature's types"""
    T = list(SCAL) + ["S%d_%d" % (k, i) for i in range(2)]; sigs = []
    for _ in range(60):
        s = tuple(r.choice(T) for _ in range(r.randint(0, 3)))
        if s not in sigs: sigs.append(s)
        if len(sigs) == 7: break
    out = ["class S%d_0 { def a: Int[32]; }" % k, "class S%d_1 { def a: Int[32]; }" % k]
    member = r.random() < 0.4
    fs = []
    for i, s in enumerate(sigs):
        a = ", ".join("p%d: %s" % (j, t) for j, t in enumerate(s)); b = "kWhich(%d); return %d;" % (i, i)
        fs.append(("handler this.v(%s): Int[32] { %s }" if member else "func v%d(%%s): Int[32] { %%s }" % k) % (a, b))
    if member: fs = ["class V%d { def z: Int[8]; %s }" % (k, " ".join(fs))]
    main = ["def o: V%d;" % k] if member else []
    order = list(range(len(sigs))); r.shuffle(order)
    for n, i in enumerate(order):
        args = []
        for j, t in enumerate(sigs[i]): main.append("def x%d_%d: %s;" % (n, j, t)); args.append("x%d_%d" % (n, j))
        main.append("kRan2(%s(%s), %d); kRan(%d, %d);" % ("o.v" if member else "v%d" % k, ", ".join(args), i, n, i))
    return "\n    ".join(out + fs) + "\n    func t_overload%d() { kReset(); %s }" % (k, " ".join(main))

def recursion(r, k):
    """functions that call themselves or each other while their parameters and locals stay alive"""
    T = ["Int[8]", "Int[32]", "Int[64]", "Word[16]"]; a, b, c = (r.choice(T) for _ in range(3)); t = r.choice(T); ops = ["+", "-"]
    o1, o2, o3 = (r.choice(ops) for _ in range(3)); perm = r.sample(["x", "y", "z"], 3); mutual = r.random() < 0.5
    ct = lambda t: {"Int": "int", "Wor": "uint"}[t[:3]] + t[t.index("[") + 1:-1] + "_t"
    other = "w%d" % k if mutual else "u%d" % k
    def fn(name, nxt): return "func %s(n: Int[32], x: %s, y: %s, z: ref[%s]): %s { def l: %s = x; if n == 0 return (x %s y)~cast[%s]; def m: %s = %s(n - 1, %s~cast[%s], %s~cast[%s], z); z = (z %s m)~cast[%s]; def h: %s = %s(n - 1, %s~cast[%s], l~cast[%s], z); return (m %s l)~cast[%s] + h; }" % (
        name, a, b, c, t, t, o1, t, t, nxt, perm[0], a, perm[1], b, o2, c, t, nxt, perm[2], a, b, o3, t)
    def cf(name, nxt):
        tup = lambda t: (t[0].lower(), int(t[t.index("[") + 1:-1]))
        def u(e, te, o, f, tf): ty = gen_ops.common(tup(te), tup(tf), True); return "((%s)((%s)(%s)(%s) %s (%s)(%s)(%s)))" % (gen_ops.c(ty), gen_ops.u(ty), gen_ops.c(ty), e, o, gen_ops.u(ty), gen_ops.c(ty), f)
        return "static %s %s(int n, %s x, %s y, %s *zp) { %s l = (%s)x; if (n == 0) return (%s)%s; %s m = %s(n - 1, (%s)%s, (%s)%s, zp); *zp = (%s)%s; %s h = %s(n - 1, (%s)%s, (%s)l, zp); return (%s)(%s + (uint64_t)h); }" % (
            ct(t), name, ct(a), ct(b), ct(c), ct(t), ct(t), ct(t), u("x", a, o1, "y", b), ct(t), nxt, ct(a), perm[0].replace("z", "(*zp)"), ct(b), perm[1].replace("z", "(*zp)"), ct(c), u("*zp", c, o2, "m", t), ct(t), nxt, ct(a), perm[2].replace("z", "(*zp)"), ct(b), ct(t), "(uint64_t)(%s)%s" % (ct(t), u("m", t, o3, "l", t)))
    A = [fn("u%d" % k, other)] + ([fn("w%d" % k, "u%d" % k)] if mutual else [])
    Cc = (["static %s c_w%d(int n, %s x, %s y, %s *zp);" % (ct(t), k, ct(a), ct(b), ct(c))] if mutual else []) + [cf("c_u%d" % k, "c_" + other)] + ([cf("c_w%d" % k, "c_u%d" % k)] if mutual else [])
    Cc.append("int64_t ref_u%d(int32_t n, %s x, %s y, %s *z) { return (int64_t)c_u%d(n, x, y, z); }" % (k, ct(a), ct(b), ct(c), k))
    A.append("@expname[ref_u%d] func refU%d(n: Int[32], x: %s, y: %s, z: ptr): Int[64];" % (k, k, a, b))
    A.append('func t_recursion%d() { def n: Int[32](Vx.choose(4, "n")); def x: %s; kFill(x~ptr, %d, 0); def y: %s; kFill(y~ptr, %d, 0); def z: %s; kFill(z~ptr, %d, 0); def z2: %s = z; def x0: %s = x; def y0: %s = y; Vx.check(u%d(n, x, y, z) == refU%d(n, x, y, z2~ptr), "result"); Vx.check(z == z2, "referenced variable"); Vx.check(x == x0, "x unchanged"); Vx.check(y == y0, "y unchanged"); }' % (k, a, SCAL[a], b, SCAL[b], c, SCAL[c], c, a, b, k, k))
    return "\n    ".join(A), "\n".join(Cc)

def variadic(r, k):
    """variadic functions written in Alusus and in C; a struct goes by value too"""
    T = ["Int[32]", "Int[64]", "Word[32]", "Float[64]", "ptr[Int[32]]", "Word[64]", "Int[16]", "Int[8]", "Float[32]"]
    n = r.randint(1, 9); args = [r.choice(T[:6] if r.random() < 0.6 else T) for _ in range(n)]
    body = " ".join("def v%d: %s = a~next_arg[%s]; kGot(q, v%d~ptr, %d);" % (i, t, t, i, SCAL[t]) for i, t in enumerate(args))
    fixed = r.randint(0, 3); fx = [r.choice(T) for _ in range(fixed)]
    out = ["func va%d(q: Int[32], %sa: ...any): Int[32] { %s %s return %d; }" % (k, "".join("f%d: %s, " % (i, t) for i, t in enumerate(fx)), " ".join("kGot(q, f%d~ptr, %d);" % (i, SCAL[t]) for i, t in enumerate(fx)), body, k)]
    main = ["def q: Int[32](kQueue());"]; al = []
    for i, t in enumerate(fx + args):
        main.append("def x%d: %s; %s kPut(q, x%d~ptr, %d);" % (i, t, "kCellFill(x%d~ptr);" % i if t.startswith("ptr") else "kFill(x%d~ptr, %d, 0);" % (i, SCAL[t]), i, SCAL[t])); al.append("x%d" % i)
    main.append("kRan2(va%d(%s), %d); kDone(q);" % (k, ", ".join(["q"] + al), k))
    # the same kind of arguments to a C function (types C itself can receive)
    cn = r.randint(0, 9); cs = [r.choice(T[:6]) for _ in range(cn)]; fmt = "".join({"Int[32]": "i", "Word[32]": "i", "Int[64]": "l", "Word[64]": "l", "Float[64]": "d", "ptr[Int[32]]": "p"}[t] for t in cs)
    main.append("def cq: Int[32](kQueue());")
    for i, t in enumerate(cs): main.append("def c%d: %s; %s kPut(cq, c%d~ptr, %d);" % (i, t, "kCellFill(c%d~ptr);" % i if t.startswith("ptr") else "kFill(c%d~ptr, %d, 0);" % (i, SCAL[t]), i, SCAL[t]))
    main.append('kRan2(kVa(%s)~cast[Int[32]], 77); kDone(cq);' % ", ".join(["cq", '"%s"' % fmt] + ["c%d" % i for i in range(cn)]))
    # counted packs of one type
    pt = r.choice(["Int[32]", "Int[64]", "Float[64]", "Word[16]"]); pn = r.randint(0, 4)
    out.append("func pk%d(q: Int[32], n: Int[32], a: ...%s): Int[32] { kGot(q, n~ptr, 4); def i: Int[32]; for i = 0, i < n, ++i { def v: %s = a~next_arg[%s]; kGot(q, v~ptr, %d); } return n; }" % (k, pt, pt, pt, SCAL[pt]))
    main.append("def pq: Int[32](kQueue()); def pn: Int[32] = %d; kPut(pq, pn~ptr, 4);" % pn)
    for i in range(pn): main.append("def p%d: %s; kFill(p%d~ptr, %d, 0); kPut(pq, p%d~ptr, %d);" % (i, pt, i, SCAL[pt], i, SCAL[pt]))
    main.append("kRan2(pk%d(pq, { %s }), %d); kDone(pq);" % (k, ", ".join("p%d" % i for i in range(pn)), pn))
    return "\n    ".join(out) + "\n    func t_variadic%d() { kReset(); %s }" % (k, " ".join(main))

def calls(tier):
    f = 1 if tier == "quick" else 6; A = [AL, "class Box [T: type] { def pad: Int[8]; def x: T; def tail: Int[8]; }", "    func same [T: type] (x: T): T { return x; }",
        '    func kRan2(got: Int[32], want: Int[32]) { Vx.check(got == want, "value returned"); }']; Cc = [C]
    for k in range(1, 1 + 40 * f): A.append("    " + Gen(random.Random(k), k).program())
    for k in range(1000, 1000 + 12 * f): A.append("    " + overloads(random.Random(k), k))
    for k in range(2000, 2000 + 10 * f): a, c = recursion(random.Random(k), k); A.append("    " + a); Cc.append(c)
    for k in range(3000, 3000 + 14 * f): A.append("    " + variadic(random.Random(k), k))
    return "\n".join(A) + "\n};\n", "\n".join(Cc) + "\n"
