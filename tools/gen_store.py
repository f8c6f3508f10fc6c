"""Generates programs for C12 (storage): random types and random writes, copies and moves through every access path, against a C model
that knows locations only by number."""
import random
from gen_calls import SCAL

C = """#include "vx.h"
#include <string.h>
#include <stdlib.h>
enum { MAXL = 400 };
static uint8_t S[MAXL][8]; static uint8_t *A_[MAXL]; static int N_[MAXL]; static int nA; static int32_t cells[64]; static int nCells;
void m_reset(void) { nA = nCells = 0; memset(S, 0, sizeof S); }
void m_fill(void *p, int32_t n, int32_t boolean) { vx_sym(p, n, "v"); if (boolean) vx_assume(*(uint8_t *)p < 2); }
void m_cell(int32_t **p) { *p = &cells[nCells++ % 64]; }
void m_set(int32_t l, void *p, int32_t n) { memcpy(S[l], p, n); }
void m_bump(int32_t l, int32_t n) { uint64_t v = 0; memcpy(&v, S[l], n); v++; memcpy(S[l], &v, n); }
void m_copy(int32_t d, int32_t s, int32_t k) { memmove(S[d], S[s], k * 8); }
void m_chk(int32_t l, void *p, int32_t n) { vx_assert(!memcmp(S[l], p, n), "stored value"); }
void m_addr(int32_t l, void *p, int32_t n, void *base, int64_t size) { uint8_t *b = p; vx_assert(b >= (uint8_t *)base && b + n <= (uint8_t *)base + size, "part outside its object");
  for (int i = 0; i < nA; i++) vx_assert(b + n <= A_[i] || A_[i] + N_[i] <= b, "parts overlap"); A_[nA] = b; N_[nA++] = n; }
void *m_alloc(int64_t n) { return malloc(n); }
void m_free(void *p) { free(p); }
void m_swap(int32_t a, int32_t b, int32_t k) { for (int i = 0; i < k; i++) { uint8_t t[8]; memcpy(t, S[a + i], 8); memcpy(S[a + i], S[b + i], 8); memcpy(S[b + i], t, 8); } }
void m_zero(int32_t l, int32_t k) { memset(S[l], 0, k * 8); }
"""
AL = """module H {
    use Srl;
    @expname[m_reset] func mReset();
    @expname[m_fill] func mFill(p: ptr, n: Int[32], b: Int[32]);
    @expname[m_cell] func mCell(p: ptr);
    @expname[m_set] func mSet(l: Int[32], p: ptr, n: Int[32]);
    @expname[m_bump] func mBump(l: Int[32], n: Int[32]);
    @expname[m_copy] func mCopy(d: Int[32], s: Int[32], k: Int[32]);
    @expname[m_swap] func mSwap(a: Int[32], b: Int[32], k: Int[32]);
    @expname[m_chk] func mChk(l: Int[32], p: ptr, n: Int[32]);
    @expname[m_addr] func mAddr(l: Int[32], p: ptr, n: Int[32], base: ptr, size: Int[64]);
    @expname[m_alloc] func mAlloc(n: Int[64]): ptr;
    @expname[m_free] func mFree(p: ptr);
    func store [T: type] (d: ref[T], s: T) { d = s; }
    func storePtr [T: type] (d: ptr[T], s: T) { d~cnt = s; }
    func swap [T: type] (a: ref[T], b: ref[T]) { def t: T = a; a = b; b = t; }
"""
class Store:
    def __init__(self, r, k):
        self.r, self.k, self.defs, self.main, self.u, self.loc = r, k, [], [], 0, 0
        self.structs = {}
        for i in range(r.randint(2, 4)):
            ms = []
            for j in range(r.randint(1, 4)):
                t = r.choice(list(SCAL) + list(self.structs) * 4); x = r.random()
                if x < 0.3: t = "array[%s, %d]" % (t, r.randint(1, 3))
                elif x < 0.35 and t in SCAL: t = "array[array[%s, 2], %d]" % (t, r.randint(1, 3))
                ms.append(("m%d" % j, t))
            if self.size_of(ms) > 22: ms = ms[:1]
            n = "T%d_%d" % (k, i); self.structs[n] = ms
            self.defs.append("class %s { %s }" % (n, " ".join("def %s: %s;" % m for m in ms)))
        self.pool = []   # (expression, type, first location, base, root size expression)
    def size_of(self, ms): return sum(self.count(t) for _, t in ms)
    def count(self, t):
        if t in SCAL: return 1
        if t.startswith("array["): e, n = t[6:-1].rsplit(", ", 1); return int(n) * self.count(e)
        return self.size_of(self.structs[t])
    def parts(self, e, t, loc):
        """every leaf (expression, type, location) in order"""
        if t in SCAL: return [(e, t, loc)]
        if t.startswith("array["):
            el, n = t[6:-1].rsplit(", ", 1); c = self.count(el); return [x for i in range(int(n)) for x in self.parts("%s(%d)" % (e, i), el, loc + i * c)]
        out = []
        for m, mt in self.structs[t]: out += self.parts(e + "." + m, mt, loc); loc += self.count(mt)
        return out
    def name(self): self.u += 1; return "v%d" % self.u
    def add(self, e, t, base=None):
        self.pool.append((e, t, self.loc)); self.loc += self.count(t); return self.pool[-1]
    def fill(self, e, t): return "mCell(%s~ptr);" % e if t.startswith("ptr") else "mFill(%s~ptr, %d, %d);" % (e, SCAL[t], t == "Bool")
    def place(self, want=None, scalar=None, symbolic=True):
        """a random part of a random variable: (text, type, location text)"""
        for _ in range(300):
            e, t, l = self.r.choice(self.pool); loc = str(l); pre = []
            while True:
                if want is not None and t == want: break
                if want is None and scalar is None and self.r.random() < 0.4: break
                if t in SCAL: break
                if t.startswith("array["):
                    el, n = t[6:-1].rsplit(", ", 1)
                    if symbolic and int(n) > 1 and self.r.random() < 0.35: i = self.name(); pre.append('def %s: Int[32](Vx.choose(%s, "index"));' % (i, n))
                    else: i = str(self.r.randrange(int(n)))
                    e = "%s(%s)" % (e, i); loc = "%s + %s * %d" % (loc, i, self.count(el)); t = el
                else:
                    j = self.r.randrange(len(self.structs[t])); m, mt = self.structs[t][j]; loc = "%s + %d" % (loc, self.size_of(self.structs[t][:j])); e += "." + m; t = mt
            if (want is None or t == want) and (not scalar or t in SCAL): return e, t, loc, " ".join(pre)
        return None
    def var(self, t, kind):
        v = self.name()
        if kind == 0: self.main.append("def %s: %s;" % (v, t)); e, size = v, None
        elif kind == 1: self.defs.append("def g%d%s: %s;" % (self.k, v, t)); e = "g%d%s" % (self.k, v)
        elif kind == 2: self.main.append("def %s: ref[%s]; %s~ptr = mAlloc(%s~size)~cast[ptr[%s]];" % (v, t, v, t, t)); e = v
        else: self.main.append("def %s: ptr[%s] = mAlloc(%s~size)~cast[ptr[%s]];" % (v, t, t, t)); e = v + "~cnt"
        if kind >= 2: self.heap.append(v + ("~ptr" if kind == 2 else ""))
        p = self.add(e, t)
        for x, xt, l in self.parts(*p): self.main.append("%s mSet(%d, %s~ptr, %d);" % (self.fill(x, xt), l, x, SCAL[xt])); self.main.append("mAddr(%d, %s~ptr, %d, %s~ptr, %s~size);" % (l, x, SCAL[xt], e, self.r.choice([e, t])))
    def op(self):
        r = self.r; k = r.randint(0, 12); m = self.main
        if k <= 1:
            e, t, l, pre = self.place(scalar=True); v = self.name(); m.append("%s def %s: %s; %s %s = %s; mSet(%s, %s~ptr, %d);" % (pre, v, t, self.fill(v, t), e, v, l, v, SCAL[t]))
        elif k <= 3:
            d = self.place()
            s = self.place(want=d[1])
            if s: m.append("%s %s %s = %s; mCopy(%s, %s, %d);" % (d[3], s[3], d[0], s[0], d[2], s[2], self.count(d[1])))
        elif k == 4:
            e, t, l, pre = self.place(scalar=True); p = self.name(); v = self.name(); m.append("%s def %s: ptr[%s] = %s~ptr; def %s: %s; %s %s~cnt = %s; mSet(%s, %s~ptr, %d);" % (pre, p, t, e, v, t, self.fill(v, t), p, v, l, v, SCAL[t]))
        elif k == 5:   # pointer arithmetic inside an array
            for _ in range(40):
                x = self.place()
                if x[1].startswith("array["): break
            else: return
            el, n = x[1][6:-1].rsplit(", ", 1); p = self.name(); i = self.name(); s = self.place(want=el); c = self.count(el); form = r.randint(0, 4)
            if not s: return
            start = r.randrange(int(n)); m.append('%s %s def %s: ptr[%s] = %s(%d)~ptr; def %s: Int[32](Vx.choose(%s, "move"));' % (x[3], s[3], p, el, x[0], start, i, n))
            if form == 0: m.append("(%s + (%s - %d))~cnt = %s;" % (p, i, start, s[0]))
            elif form == 1: m.append("%s = %s - (%d - %s); %s~cnt = %s;" % (p, p, start, i, p, s[0]))
            elif form == 2: m.append("while %s~cast[ArchInt] < (%s(0)~ptr + %s)~cast[ArchInt] { %s = %s + 1; } while %s~cast[ArchInt] > (%s(0)~ptr + %s)~cast[ArchInt] { %s = %s - 1; } %s~cnt = %s;" % (p, x[0], i, p, p, p, x[0], i, p, p, p, s[0]))
            elif form == 3: m.append("%s += %s; %s -= %d; %s~cnt = %s;" % (p, i, p, start, p, s[0]))
            else: m.append("%s~ptr~cast[ptr[array[%s, %s]]]~cnt(%s) = %s;" % (x[0] + "(0)", el, n, i, s[0]))
            m.append("mCopy(%s + %s * %d, %s, %d);" % (x[2], i, c, s[2], c))
        elif k == 6:
            e, t, l, pre = self.place(); s = self.place(want=t); v = self.name()
            if s: m.append("%s %s def %s: ref[%s]; %s~ptr = %s~ptr; %s = %s; mCopy(%s, %s, %d);" % (pre, s[3], v, t, v, e, v, s[0], l, s[2], self.count(t)))
        elif k == 7:
            e, t, l, pre = self.place(symbolic=False); v = self.name(); form = r.randint(0, 2)
            if t.startswith("array["): form = r.choice([0, 2])
            old = self.add(v, t); m.append(["def %s: %s = %s;" % (v, t, e), "def %s: %s(%s);" % (v, t, e), "def %s: %s; %s = %s;" % (v, t, v, e)][form] + " mCopy(%d, %s, %d);" % (old[2], l, self.count(t)))
        elif k == 8:
            d = self.place(); s = self.place(want=d[1])
            if s: m.append("%s %s %s mCopy(%s, %s, %d);" % (d[3], s[3], r.choice(["store[%s](%s, %s);" % (d[1], d[0], s[0]), "storePtr[%s](%s~ptr, %s);" % (d[1], d[0], s[0])]), d[2], s[2], self.count(d[1])))
        elif k == 9:
            d = self.place(symbolic=False); s = self.place(want=d[1], symbolic=False)
            if s and d[2] != s[2]: m.append("swap[%s](%s, %s); mSwap(%s, %s, %d);" % (d[1], d[0], s[0], d[2], s[2], self.count(d[1])))
        elif k == 10:
            for _ in range(40):
                x = self.place(scalar=True)
                if x[1][:3] in ("Int", "Wor"): break
            else: return
            m.append("%s %s; mBump(%s, %d);" % (x[3], r.choice(["++%s", "%s++", "%s += 1", "%s = %s + 1" if False else "%s -= -1"]) % x[0], x[2], SCAL[x[1]]))
        elif k == 11:   # a pack of statements on an object
            for _ in range(40):
                x = self.place()
                if x[1] in self.structs: break
            else: return
            j = r.randrange(len(self.structs[x[1]])); mm, mt = self.structs[x[1]][j]; s = self.place(want=mt)
            if s: m.append("%s %s def %s: ref[%s]; %s~ptr = %s~ptr; %s.{ %s = %s }; mCopy(%s + %d, %s, %d);" % (x[3], s[3], "w" + self.name(), mt, "w%s" % ("v%d" % self.u), s[0], x[0], r.choice([mm, "this." + mm]), "wv%d" % self.u, x[2], self.size_of(self.structs[x[1]][:j]), s[2], self.count(mt)))
        else:          # a pointer to a pointer
            e, t, l, pre = self.place(); s = self.place(want=t); p = self.name()
            if s: m.append("%s %s def %s: ptr[%s] = %s~ptr; def p%s: ptr[ptr[%s]] = %s~ptr; p%s~cnt~cnt = %s; mCopy(%s, %s, %d);" % (pre, s[3], p, t, e, p, t, p, p, s[0], l, s[2], self.count(t)))
    def check(self):
        for p in self.pool:
            for x, xt, l in self.parts(*p): self.main.append("mChk(%d, %s~ptr, %d);" % (l, x, SCAL[xt]))
    def program(self):
        r = self.r; self.heap = []
        for i in range(r.randint(2, 4)):
            t = r.choice(list(self.structs) * 3 + ["array[%s, %d]" % (r.choice(list(self.structs) + list(SCAL)), r.randint(2, 3))])
            if self.loc + self.count(t) < 90: self.var(t, r.randint(0, 3))
        if not self.pool: self.var(list(self.structs)[0], 0)
        for i in range(r.randint(4, 7)):
            if self.loc < 150: self.op()
            if r.random() < 0.2: self.check()
        self.check(); self.main += ["mFree(%s);" % h for h in self.heap]
        return "\n    ".join(self.defs) + "\n    func t_store%d() { mReset(); %s }" % (self.k, "\n        ".join(self.main))

def store(tier):
    A = [AL]
    for k in range(1, 1 + (60 if tier == "quick" else 300)): A.append("    " + Store(random.Random(k), k).program())
    return "\n".join(A) + "\n};\n", C
