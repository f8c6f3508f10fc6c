"""Generates control-flow programs (C10) and object-lifetime programs (C13) in Alusus together with their C references."""
import random

class Flow:
    def __init__(self, seed, objects=False, size=9):
        self.r = random.Random(seed); self.k = 0; self.vars = 0; self.budget = size; self.obj = objects; self.labels = 0
    def key(self): self.k += 1; return self.k
    # every statement is (alusus text, C text); ctx: loops = list of C label numbers, outermost first
    def cond(self, loop=False):
        c = self.r.random(); k = self.key()
        a, b = "cond(%d)" % k, "rcond(%d)" % k
        if self.obj and self.r.random() < 0.35:
            t = self.r.randint(0, 4); k2 = self.key(); y = "make(%d).yes(%d)" % (k2, k2)
            if t == 0: return y, "rcond(%d)" % k2
            if t == 1: return "%s && %s" % (a, y), "(%s && rcond(%d))" % (b, k2)
            if t == 2: return "%s || %s" % (a, y), "(%s || rcond(%d))" % (b, k2)
            if t == 3: return "%s && %s" % (y, a), "(rcond(%d) && %s)" % (k2, b)
            return "test(Obj(%d), %d) and %s" % (k2, k2, y), "(rcond(%d) && rcond(%d))" % (k2, k2)
        if c < 0.6: return a, b
        k2 = self.key()
        if c < 0.75: return "%s && cond(%d)" % (a, k2), "(%s && rcond(%d))" % (b, k2)
        if c < 0.9: return "%s || cond(%d)" % (a, k2), "(%s || rcond(%d))" % (b, k2)
        if loop: return "n > 0 && %s" % a, "(n > 0 && %s)" % b
        return "!!cond(%d)" % k, "!rcond(%d)" % k
    def declare(self, scopes):
        """an object declaration or a statement that makes temporary objects"""
        self.vars += 1; v = "o%d" % self.vars; k = self.key(); kind = self.r.randint(0, 15)
        def named(al, *keys):
            for j, x in enumerate(keys): scopes[-1].append(str(k * 10 + j))
            return al + " " + " ".join("%s.mark(%d);" % (x, k * 10 + j) for j, x in enumerate(keys)), " ".join("rmark(%d);" % (k * 10 + j) for j in range(len(keys))), False
        if kind == 0: return named("def %s: Obj(%d);" % (v, k), v)
        if kind == 1: return named("def %s: Obj = make(%d);" % (v, k), v)
        if kind == 2: return named("def %s: Obj(%d); take(%s, %d); %s.use(%d);" % (v, k, v, k, v, k), v)
        if kind == 3: return named("def %s: Obj(%d); %s = pass(Obj(%d)); %s.use(%d);" % (v, k + 1, v, k, v, k), v)
        if kind == 4: return named("def %s: Pair; %s.a = Obj(%d); %s.a.use(%d); %s.b.use(0);" % (v, v, k, v, k, v), v + ".a", v + ".b")
        if kind == 5: return named("def %s: Array[Obj]; %s.add(make(%d)); %s.add(Obj(%d)); %s(1).use(%d); %s(0) = %s(1); %s(0).use(%d);" % (v, v, k, v, k + 1, v, k + 1, v, v, v, k + 1), v + "(0)", v + "(1)")
        if kind == 6: return named("def %s: Pair(%d); def c%s: Pair(%s); c%s.b.use(%d);" % (v, k, v, v, v, k + 1), v + ".a", "c" + v + ".b")
        if kind == 7: a = "make(%d); Obj(%d);" % (k, k)
        elif kind == 8: a = "take(pass(make(%d)), %d);" % (k, k)
        elif kind == 9: a = "take(make(%d).self(), %d);" % (k, k)
        elif kind == 10: r = named("def %s: Obj = build(%d);" % (v, k), v); return r[0], "rbuild(%d); " % k + r[1], False
        elif kind == 11: return named("def %s: Obj(pair(%d).b); %s.use(%d);" % (v, k, v, k + 1), v)
        elif kind == 12: return named("def %s: Obj = choose(make(%d), Obj(%d), %d);" % (v, k, k + 1, k), v)[0], "rcond(%d); rmark(%d);" % (k, k * 10), False
        elif kind == 13: a = "{ def %s: Holder(make(%d)); %s.o.use(%d); }" % (v, k, v, k)
        elif kind == 14: return named("def %s: Obj(%d); %s = %s; %s.use(%d);" % (v, k, v, v, v, k), v)
        else: return "def %s: Int[32](make(%d).v + pair(%d).a.v); if %s != %d fault();" % (v, k, k, v, 2 * k), "", False
        return a, "", False
    def tr(self):
        k = self.key(); return "tr(%d);" % k, "rtr(%d);" % k
    def block(self, depth, loops, scopes, n=None, end=True):
        n = n or self.r.randint(1, 3); A, C = [], []; mine = []; stop = False
        scopes = scopes + [mine]
        for i in range(n):
            a, c, stop = self.stmt(depth, loops, scopes)
            A.append(a); C.append(c)
            if stop: break
        else: C.append(self.leave([mine]))
        return "{ " + " ".join(A) + " }", "{ " + " ".join(C) + " }", stop
    def leave(self, scopes):
        return " ".join("rdel(%s);" % o for s in reversed(scopes) for o in reversed(s))
    def stmt(self, depth, loops, scopes):
        r = self.r; x = r.random(); self.budget -= 1
        if self.obj and x < 0.3:
            return self.declare(scopes)
        if depth <= 0 or self.budget <= 0 or x < 0.45: a, c = self.tr(); return a, c, False
        if x < 0.65:
            ca, cc = self.cond(); q = r.random()
            if q < 0.35:
                a, c, _ = self.simple(loops, scopes); return "if %s %s" % (ca, a), "if (%s) { %s }" % (cc, c), False
            t = self.block(depth - 1, loops, scopes)
            if q < 0.6: return "if %s %s" % (ca, t[0]), "if (%s) %s" % (cc, t[1]), False
            if q < 0.8:
                e = self.block(depth - 1, loops, scopes); return "if %s %s else %s" % (ca, t[0], e[0]), "if (%s) %s else %s" % (cc, t[1], e[1]), t[2] and e[2]
            ca2, cc2 = self.cond(); e = self.block(depth - 1, loops, scopes, 1); f = self.tr()
            return "if %s %s else if %s %s else %s" % (ca, t[0], ca2, e[0], f[0]), "if (%s) %s else if (%s) %s else { %s }" % (cc, t[1], cc2, e[1], f[1]), False
        if x < 0.8:
            self.labels += 1; l = self.labels; ca, cc = self.cond(True)
            b = self.block(depth - 1, loops + [(l, len(scopes))], scopes, r.randint(2, 4))
            par = r.random() < 0.3
            return "while %s %s" % ("(" + ca + ")" if par else ca, b[0]), "while (%s) { %s cont%d:; } brk%d:;" % (cc, b[1], l, l), False
        if x < 0.93:
            self.labels += 1; l = self.labels; self.vars += 1; v = "i%d" % self.vars; k = self.key(); lim = r.randint(1, 3); useN = r.random() < 0.4; ca, cc = self.cond(True)
            b = self.block(depth - 1, loops + [(l, len(scopes))], scopes, r.randint(1, 3))
            test = ("%s < n" % v if useN else "%s < %d" % (v, lim)); st = r.random()
            if st < 0.5: sa, sc = "%s = step(%d, %s)" % (v, k, v), "%s = rstep(%d, %s)" % (v, k, v)
            else: sa, sc = r.choice(["++%s", "%s++", "%s += 1"]) % v, "%s++" % v
            inner = r.random() < 0.5
            head = "def %s: Int[32]; for (%s = 0, tr(%d)), " % (v, v, k) if inner else "def %s: Int[32]; for %s = 0, " % (v, v)
            init = "(%s = 0, rtr(%d))" % (v, k) if inner else "%s = 0" % v
            if inner: k2 = self.key(); sa, sc = "(%s, tr(%d))" % (sa, k2), "(%s, rtr(%d))" % (sc, k2)
            full = r.random() < 0.5
            ta, tc = ("%s && (%s)" % (test, ca), "(%s) && %s" % (test, cc)) if full else (test, test)
            # the limit on the loop's turns is part of the program: never endless
            return "%s%s, %s %s" % (head, ta, sa, b[0]), "{ int %s; for (%s; %s; %s) { %s cont%d:; } } brk%d:;" % (v, init, tc, sc, b[1], l, l), False
        if x < 0.96: b = self.block(depth - 1, loops, scopes); return b
        return self.jump(loops, scopes)
    def simple(self, loops, scopes):
        if self.r.random() < 0.25: a, c = self.tr(); return a, c, False
        return self.jump(loops, scopes)
    def jump(self, loops, scopes):
        r = self.r
        if not loops or r.random() < 0.2:
            k = self.key(); return "return %d;" % k, "{ %s return %d; }" % (self.leave(scopes), k), True
        n = 1 if len(loops) == 1 or r.random() < 0.5 else r.randint(2, len(loops)); l, depth = loops[-n]
        word = r.choice(["break", "continue"]); num = "" if n == 1 and r.random() < 0.7 else " %d" % n
        return "%s%s;" % (word, num), "{ %s goto %s%d; }" % (self.leave(scopes[depth:]), {"break": "brk", "continue": "cont"}[word], l), True
    def program(self, name):
        A, C = [], []; mine = []
        for i in range(self.r.randint(2, 4)):
            a, c, stop = self.stmt(3, [], [mine])
            if stop: k = self.key(); a, c, stop = "if cond(%d) { %s }" % (k, a), "if (rcond(%d)) { %s }" % (k, c), False
            A.append(a); C.append(c)
        k = self.key(); self.k = k
        return "func %s(n: Int[32]): Int[32] { %s return %d; }" % (name, " ".join(A), k), "static int r_%s(int n) { %s { %s return %d; } }" % (name, " ".join(C), self.leave([mine]), k), self.labels

FLOW_C = """#include "vx.h"
#include <string.h>
enum { MAXT = 400 };
static uint8_t bits[32]; static int nbits, used, rused, T[2][MAXT], nT[2];
static void ev(int s, int v) { if (nT[s] >= MAXT) { if (s) return; vx_fail("program does not end"); } T[s][nT[s]++] = v; }
void f_start(int32_t budget) { vx_sym(bits, budget, "steering"); nbits = budget; used = rused = nT[0] = nT[1] = 0; for (int i = 0; i < budget; i++) vx_assume(bits[i] < 2); }
int32_t f_cond(int32_t k) { int v = used < nbits ? bits[used++] : 0; ev(0, 1000 + k * 2 + 0); return v != 0; }
void f_tr(int32_t k) { ev(0, k); }
int32_t f_step(int32_t k, int32_t i) { ev(0, 5000 + k * 8 + i); return i + 1; }
static int rcond(int k) { int v = rused < nbits ? bits[rused++] : 0; ev(1, 1000 + k * 2 + 0); return v != 0; }
static void rtr(int k) { ev(1, k); }
static int rstep(int k, int i) { ev(1, 5000 + k * 8 + i); return i + 1; }
void f_compare(int32_t got, int32_t want) { vx_assert(got == want, "returned value"); vx_assert(nT[0] == nT[1], "number of executed statements"); for (int i = 0; i < nT[0] && i < nT[1]; i++) vx_assert(T[0][i] == T[1][i], "executed statement"); vx_cover("program"); }
"""
FLOW_AL = """module H {
    use Srl;
    @expname[f_start] func start(budget: Int[32]);
    @expname[f_cond] func fCond(k: Int[32]): Int[32];
    @expname[f_tr] func tr(k: Int[32]);
    @expname[f_step] func step(k: Int[32], i: Int[32]): Int[32];
    @expname[f_compare] func compare(got: Int[32], want: Int[32]);
    func cond(k: Int[32]): Bool { return fCond(k) != 0; }
"""
def pick(seeds, count, want="", **kw):
    """programs that have at least one loop and a reasonable size"""
    out = []
    for s in seeds:
        f = Flow(s, **kw); a, c, l = f.program("p%d" % s)
        if l >= 1 and want in a and 200 < len(a) < 900: out.append((s, a, c))
        if len(out) == count: break
    return out
def flow(tier):
    A, C = [FLOW_AL], [FLOW_C]
    for s, a, c in pick(range(1, 100000), 120 if tier == "quick" else 600):
        C.append(c); C.append("int32_t ref_p%d(int32_t n) { return r_p%d(n); }" % (s, s))
        A.append("    @expname[ref_p%d] func ref%d(n: Int[32]): Int[32];" % (s, s)); A.append("    " + a)
        A.append('    func t_p%d() { def n: Int[32](Vx.range(0, 2, "n")); start(%d); compare(p%d(n), ref%d(n)); }' % (s, 6 if tier == "quick" else 9, s, s))
    return "\n".join(A) + "\n};\n", "\n".join(C) + "\n"

LIFE_C = FLOW_C.replace("void f_compare", """#include <stdlib.h>
typedef struct { int32_t v, key; } Tok;
enum { MARK = 20000, DEL = 40000 };
Tok *o_new(int32_t v) { Tok *t = malloc(sizeof(Tok)); t->v = v; t->key = 0; return t; }
void o_mark(Tok *t, int32_t k) { t->key = k; ev(0, MARK + k); }
void o_use(Tok *t, int32_t v) { vx_assert(t->v == v, "object holds its value"); }
void o_set(Tok *t, int32_t v) { t->v = v; }
void o_del(Tok *t) { if (t->key) ev(0, DEL + t->key); t->key = -1; free(t); }
void o_fault(void) { vx_assert(0, "value of a temporary object"); }
static void rmark(int k) { ev(1, MARK + k); } static void rdel(int k) { ev(1, DEL + k); }
static void rbuild(int k) { if (rcond(k)) { rmark(k * 10 + 5); if (rcond(k)) { rdel(k * 10 + 5); return; } rmark(k * 10 + 6); rdel(k * 10 + 6); rdel(k * 10 + 5); return; } rmark(k * 10 + 7); rdel(k * 10 + 7); }
static void order(int s) { for (int i = 0; i < nT[s]; i++) for (int j = i; j > 0 && T[s][j] > DEL && T[s][j - 1] > DEL && T[s][j] < T[s][j - 1]; j--) { int t = T[s][j]; T[s][j] = T[s][j - 1]; T[s][j - 1] = t; } }
void f_compare""").replace("{ vx_assert(got == want", "{ order(0); order(1); vx_assert(got == want").replace("executed statements", "statements, constructions and destructions").replace("executed statement", "statement, construction or destruction")
LIFE_AL = 'import "Srl/Array";\n' + FLOW_AL + """    @expname[o_new] func oNew(v: Int[32]): ptr;
    @expname[o_mark] func oMark(t: ptr, k: Int[32]);
    @expname[o_use] func oUse(t: ptr, v: Int[32]);
    @expname[o_set] func oSet(t: ptr, v: Int[32]);
    @expname[o_del] func oDel(t: ptr);
    @expname[o_fault] func fault();
    class Obj {
        def v: Int[32]; def t: ptr;
        handler this~init() { this.v = 0; this.t = oNew(0); };
        handler this~init(k: Int[32]) { this.v = k; this.t = oNew(k); };
        handler this~init(o: ref[Obj]) { oUse(o.t, o.v); this.v = o.v; this.t = oNew(o.v); };
        handler this~terminate() { oUse(this.t, this.v); oDel(this.t); };
        handler this = ref[Obj] { oUse(value.t, value.v); oUse(this.t, this.v); this.v = value.v; oSet(this.t, this.v); };
        handler this.mark(k: Int[32]) { oMark(this.t, k); };
        handler this.use(k: Int[32]) { oUse(this.t, k); if this.v != k fault(); };
        handler this.yes(k: Int[32]): Bool { this.use(k); return cond(k); };
        handler this.self(): Obj { return this; };
    };
    class Pair {
        def a: Obj; def b: Obj;
        handler this~init() {};
        handler this~init(k: Int[32]) { this.a = Obj(k); this.b = make(k + 1); };
        handler this~init(p: ref[Pair]) { this.a = p.a; this.b = p.b; };
    };
    class Holder { def o: Obj; handler this~init(x: Obj) { this.o = x; }; };
    func make(k: Int[32]): Obj { return Obj(k); }
    func take(o: Obj, k: Int[32]) { o.use(k); o.v = k + 1; oSet(o.t, k + 1); }
    func pass(o: Obj): Obj { return o; }
    func pair(k: Int[32]): Pair { return Pair(k); }
    func test(o: Obj, k: Int[32]): Bool { o.use(k); if k < 0 return false; return cond(k); }
    func choose(a: Obj, b: Obj, k: Int[32]): Obj { if cond(k) return a; return b; }
    func build(k: Int[32]): Obj {
        if cond(k) { def o: Obj(k); o.mark(k * 10 + 5); if cond(k) return o; def p: Obj(k); p.mark(k * 10 + 6); return make(k); }
        def q: Obj(k); q.mark(k * 10 + 7); return q;
    }
"""
def life(tier):
    A, C = [LIFE_AL], [LIFE_C]
    for s, a, c in pick(range(1, 100000), 150 if tier == "quick" else 500, objects=True, size=12, want="Obj"):
        C.append(c); C.append("int32_t ref_p%d(int32_t n) { return r_p%d(n); }" % (s, s))
        A.append("    @expname[ref_p%d] func ref%d(n: Int[32]): Int[32];" % (s, s)); A.append("    " + a)
        A.append('    func t_p%d() { def l: Int[32](Vx.live()); { def n: Int[32](Vx.range(0, 2, "n")); start(%d); compare(p%d(n), ref%d(n)); } Vx.check(Vx.live() == l, "every object destroyed"); }' % (s, 5 if tier == "quick" else 8, s, s))
    return "\n".join(A) + "\n};\n", "\n".join(C) + "\n"
