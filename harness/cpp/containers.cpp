// C25: lists and maps of the compiler core, with derived containers and change notifications, against a model.
#include "core.h"
#include "vx.h"
using namespace Core::Basic;
static const int NC = 3, MX = 14, NP = 16;
static TiInt *pool[NP]; static int used;
struct Model { int n; TiInt *v[MX]; bool inh[MX]; uint8_t key[MX]; int base; bool alive; } m[NC];
static int bn(int i) { return m[i].base < 0 ? 0 : m[m[i].base].n; }
static void mIns(int i, int p, TiInt *v, bool inh, uint8_t k) { vx_assert(m[i].n < MX, "harness: model full"); for (int q = m[i].n; q > p; q--) { m[i].v[q] = m[i].v[q - 1]; m[i].inh[q] = m[i].inh[q - 1]; m[i].key[q] = m[i].key[q - 1]; } m[i].v[p] = v; m[i].inh[p] = inh; m[i].key[p] = k; m[i].n++; }
static void mDel(int i, int p) { m[i].n--; for (int q = p; q < m[i].n; q++) { m[i].v[q] = m[i].v[q + 1]; m[i].inh[q] = m[i].inh[q + 1]; m[i].key[q] = m[i].key[q + 1]; } }
static bool isMap;
static int mFind(int i, uint8_t k) { for (int q = 0; q < m[i].n; q++) if (m[i].key[q] == k) return q; return -1; }
#define DERIVED(i, j) for (int j = 0; j < NC; j++) if (m[j].alive && m[j].base == i)
static void mAdded(int i, int p, TiInt *v, bool inh, uint8_t k);
static void mRemoved(int i, int p);
static void mUpdated(int i, int p, TiInt *v, bool inh) { m[i].v[p] = v; m[i].inh[p] = inh; DERIVED(i, j) if (m[j].inh[p]) mUpdated(j, p, v, true); }
static void mBaseAdded(int j, int p, TiInt *v, uint8_t k) {
  if (isMap) { int q = mFind(j, k); if (q == p) return; if (q >= 0) { TiInt *own = m[j].v[q]; mRemoved(j, q); mAdded(j, p, own, false, k); return; } }
  mAdded(j, p, v, true, k); }
static void mAdded(int i, int p, TiInt *v, bool inh, uint8_t k) { mIns(i, p, v, inh, k); DERIVED(i, j) mBaseAdded(j, p, v, k); }
static void mRemoved(int i, int p) { mDel(i, p);
  DERIVED(i, j) { if (m[j].inh[p]) mRemoved(j, p); else { TiInt *own = m[j].v[p]; uint8_t k = m[j].key[p]; mRemoved(j, p); mAdded(j, isMap ? m[j].n : m[i].n, own, false, k); } } }
static void mAttach(int j, int b) { m[j].base = b; for (int p = 0; p < m[b].n; p++) { for (int q = 0; q < m[j].n; q++) {} mBaseAdded(j, p, m[b].v[p], m[b].key[p]); } }
static void mDetach(int j) { if (m[j].base < 0) return; for (int p = m[j].n - 1; p >= 0; p--) if (m[j].inh[p]) mRemoved(j, p); m[j].base = -1; }
static void mClear(int i) { for (int p = 0; p < bn(i); p++) if (!m[i].inh[p]) mUpdated(i, p, m[m[i].base].v[p], true); for (int p = m[i].n - 1; p >= bn(i); p--) mRemoved(i, p); }

template <class T> struct Tr;
template <> struct Tr<SharedList<TiInt>> { typedef SharedListBase<TiInt, TiObject> B; typedef SharedPtr<TiInt> P; static SharedList<TiInt> *mk() { return new SharedList<TiInt>(); } };
template <> struct Tr<PlainList<TiInt>> { typedef PlainListBase<TiInt, TiObject> B; typedef TiInt *P; static PlainList<TiInt> *mk() { return new PlainList<TiInt>(); } };
static bool useIdx;
template <> struct Tr<SharedMap<TiInt>> { typedef SharedMapBase<TiInt, TiObject> B; typedef SharedPtr<TiInt> P; static SharedMap<TiInt> *mk() { return new SharedMap<TiInt>(useIdx); } };
template <> struct Tr<PlainMap<TiInt>> { typedef PlainMapBase<TiInt, TiObject> B; typedef TiInt *P; static PlainMap<TiInt> *mk() { return new PlainMap<TiInt>(useIdx); } };
static TiInt *rp(TiInt *p) { return p; }
static TiInt *rp(SharedPtr<TiInt> const &p) { return p.get(); }
template <class P> static P mkp(TiInt *p);
template <> TiInt *mkp<TiInt *>(TiInt *p) { return p; }
template <> SharedPtr<TiInt> mkp<SharedPtr<TiInt>>(TiInt *p) { return getSharedPtr(p); }
static TiInt *fresh() { vx_assert(used < NP, "harness: pool"); return pool[used++]; }

// Every container has a listener that rebuilds the contents from the notifications alone.
template <class L> struct Listener {
  typedef typename Tr<L>::B B; L *c; int id; int n; TiInt *v[MX]; int pend, pop;
  Slot<void, B *, ContentChangeOp, Int> slot = {this, &Listener<L>::on};
  Listener(L *l, int i) : c(l), id(i), n(0), pend(-1), pop(-1) { l->changeNotifier.connect(slot); }
  void on(B *o, ContentChangeOp op, Int p) {
    vx_assert(o == c, "notification names its container");
    if (op == ContentChangeOp::ADDED) { vx_assert(p >= 0 && p <= n && (Int)c->getCount() == n + 1, "added notification"); for (int q = n; q > p; q--) v[q] = v[q - 1]; v[p] = rp(c->get(p)); n++; }
    else if (op == ContentChangeOp::REMOVED) { vx_assert(p >= 0 && p < n && (Int)c->getCount() == n - 1, "removed notification"); n--; for (int q = p; q < n; q++) v[q] = v[q + 1]; pend = -1; }
    else if (op == ContentChangeOp::UPDATED) { vx_assert(p >= 0 && p < n && (Int)c->getCount() == n, "updated notification"); v[p] = rp(c->get(p)); pend = -1; }
    else { vx_assert(p >= 0 && p < n && rp(c->get(p)) == v[p], "announced change"); pend = p; pop = op == ContentChangeOp::WILL_REMOVE; }
  }
};
template <class L> struct Run {
  typedef typename Tr<L>::P P; L *c[NC]; Listener<L> *w[NC];
  static void key(char *b, uint8_t k) { b[0] = k; b[1] = 0; }
  void verify() {
    for (int i = 0; i < NC; i++) if (m[i].alive) {
      vx_assert((int)c[i]->getCount() == m[i].n && c[i]->getElementCount() == c[i]->getCount(), "number of elements");
      vx_assert(w[i]->n == m[i].n, "notifications give the number of elements");
      vx_assert(c[i]->getBase() == (m[i].base < 0 ? 0 : c[m[i].base]), "base");
      for (int p = 0; p < m[i].n; p++) {
        vx_assert(rp(c[i]->get(p)) == m[i].v[p] && c[i]->getElement(p) == m[i].v[p], "element"); vx_assert(w[i]->v[p] == m[i].v[p], "notifications give the elements");
        vx_assert(c[i]->isInherited(p) == m[i].inh[p], "inherited or own");
        if (p < bn(i)) vx_assert(!m[i].inh[p] || rp(c[i]->get(p)) == rp(c[m[i].base]->get(p)), "inherited element is the base's"); else vx_assert(!m[i].inh[p], "only the base's positions are inherited"); }
      keys(c[i], i);
    } }
  template <class X> static auto hasKeys(X *x) -> decltype(x->getKey(0), true) { return true; }
  void keys(SharedList<TiInt> *, int) {} void keys(PlainList<TiInt> *, int) {}
  template <class X> void keys(X *x, int i) { for (int p = 0; p < m[i].n; p++) { SbStr const k = x->getKey(p); char const *s = k.getBuf(); vx_assert((uint8_t)s[0] == m[i].key[p] && s[1] == 0, "key"); vx_assert(x->findIndex(s) == p && x->getIndex(s) == p, "position of a key"); vx_assert(rp(x->get(s)) == m[i].v[p], "element of a key"); } }
  void setup(int shape) {
    for (int i = 0; i < NC; i++) { m[i].n = 0; m[i].base = -1; m[i].alive = true; c[i] = Tr<L>::mk(); w[i] = new Listener<L>(c[i], i); }
    char k[2];
    for (int q = 0; q < 2; q++) { TiInt *v = fresh(); add(c[0], v, 'a' + q); mAdded(0, q, v, false, 'a' + q); }
    if (shape & 1) { TiInt *v = fresh(); add(c[1], v, isMap && (shape & 4) ? 'b' : 'c'); mAdded(1, 0, v, false, isMap && (shape & 4) ? 'b' : 'c'); }
    c[1]->setBase(c[0]); mAttach(1, 0);
    if (shape & 2) { TiInt *v = fresh(); c[1]->set(0, mkp<P>(v)); mUpdated(1, 0, v, false); }
    int b = (shape & 8) ? 0 : 1; c[2]->setBase(c[b]); mAttach(2, b);
    if (shape & 2) { TiInt *v = fresh(); c[2]->set(1, mkp<P>(v)); mUpdated(2, 1, v, false); }
    // a little history: the base grows, shrinks, and a derived container takes back its own element
    if (shape & 16) { TiInt *v = fresh(); add(c[0], v, 'd'); mAdded(0, m[0].n, v, false, 'd'); verify(); c[0]->remove(0); mRem(0, 0); verify(); }
    if (shape & 32) { int q = 0; while (q < m[1].n && m[1].inh[q]) q++; if (q < m[1].n) { c[1]->remove(q); mRem(1, q); } c[0]->clear(); mClear(0); TiInt *v = fresh(); add(c[0], v, 'b'); mAdded(0, 0, v, false, 'b'); }
    (void)k; verify(); }
  static void add(SharedList<TiInt> *l, TiInt *v, uint8_t) { l->add(getSharedPtr(v)); }
  static void add(PlainList<TiInt> *l, TiInt *v, uint8_t) { l->add(v); }
  template <class X> static void add(X *x, TiInt *v, uint8_t k) { char b[2]; key(b, k); x->add(b, mkp<P>(v)); }
  // operations common to lists and maps; the index is any 32-bit value
  void set(int i) { int32_t p = vx_u32("index"); TiInt *v = fresh(); bool ok = isMap ? (uint32_t)p < (uint32_t)m[i].n : (uint32_t)p <= (uint32_t)m[i].n;
    if (vx_choose(2, "how")) { bool t = false; try { c[i]->set(p, mkp<P>(v)); } catch (Srl::InvalidArgumentException &) { t = true; } vx_assert(t == !ok, "set accepts exactly the valid positions"); if (t) return; }
    else { vx_assume(ok); c[i]->setElement(p, v); }
    p = vx_fork(p); if (p == m[i].n) mAdded(i, p, v, false, 0); else mUpdated(i, p, v, false); }
  void remove(int i) { int32_t p = vx_u32("index"); bool t = false; try { c[i]->remove(p); } catch (Srl::InvalidArgumentException &) { t = true; }
    bool in = (uint32_t)p < (uint32_t)m[i].n; if (in) p = vx_fork(p); bool ok = in && !m[i].inh[p]; vx_assert(t == !ok, "remove accepts exactly the container's own positions"); if (t) return; mRem(i, p); }
  void mRem(int i, int p) { if (p < bn(i)) mUpdated(i, p, m[m[i].base].v[p], true); else mRemoved(i, p); }
  void get(int i) { int32_t p = vx_u32("index"); bool t = false; TiInt *r = 0; int what = vx_choose(2, "what"); bool f = false; try { if (what) r = rp(c[i]->get(p)); else f = c[i]->isInherited(p); } catch (Srl::InvalidArgumentException &) { t = true; }
    bool ok = (uint32_t)p < (uint32_t)m[i].n; vx_assert(t == !ok, "access accepts exactly the valid positions"); if (ok) { p = vx_fork(p); if (what) vx_assert(r == m[i].v[p], "element at a position"); else vx_assert(f == m[i].inh[p], "inherited or own at a position"); } }
  void clear(int i) { c[i]->clear(); mClear(i); }
  void rebase(int i) { int b = vx_choose(3, "base") - 1; for (int x = b; x >= 0; x = m[x].base) if (x == i) return; if (b >= 0 && !m[b].alive) return; c[i]->setBase(b < 0 ? 0 : c[b]); mDetach(i); if (b >= 0) mAttach(i, b); }
  void destroy(int i) { for (int j = 0; j < NC; j++) if (m[j].alive && m[j].base == i) mDetach(j); 
    delete c[i]; delete w[i]; m[i].alive = false; m[i].base = -1; c[i] = 0; }
  // lists only
  void lAdd(int i) { TiInt *v = fresh(); int p; if (vx_choose(2, "how")) p = c[i]->add(mkp<P>(v)); else { TiInt *u = fresh(); c[i]->add({mkp<P>(v), mkp<P>(u)}); mAdded(i, m[i].n, v, false, 0); v = u; p = m[i].n; } vx_assert(p == m[i].n, "position of an added element"); mAdded(i, m[i].n, v, false, 0); }
  void lIns(int i) { int32_t p = vx_u32("index"); TiInt *v = fresh(); bool t = false; try { c[i]->insert(p, mkp<P>(v)); } catch (Srl::InvalidArgumentException &) { t = true; }
    bool ok = (uint32_t)p <= (uint32_t)m[i].n && (uint32_t)p >= (uint32_t)bn(i); vx_assert(t == !ok, "insert accepts exactly the positions after the base's elements"); if (t) return; p = vx_fork(p); mAdded(i, p, v, false, 0); }
  // maps only; the key is any non-zero byte
  static uint8_t anyKey() { uint8_t k = vx_u8("key"); vx_assume(k != 0); return k; }
  void kAdd(int i) { uint8_t k = anyKey(); char b[2]; key(b, k); TiInt *v = fresh(); bool t = false; int r = -1; try { r = c[i]->add(b, mkp<P>(v)); } catch (Srl::InvalidArgumentException &) { t = true; } b[0] = '?';
    int q = mFind(i, k); vx_assert(t == (q >= 0 && !m[i].inh[q]), "add refuses exactly the keys the map itself holds"); if (t) return; if (q >= 0) { vx_assert(r == q, "position of an overriding element"); mUpdated(i, q, v, false); } else { vx_assert(r == m[i].n, "position of an added element"); mAdded(i, m[i].n, v, false, k); } }
  void kSet(int i) { uint8_t k = anyKey(); char b[2]; key(b, k); TiInt *v = fresh(); bool t = false, nw = vx_choose(2, "new"); int r = -1; try { r = c[i]->set(b, mkp<P>(v), nw); } catch (Srl::InvalidArgumentException &) { t = true; } b[0] = '?';
    int q = mFind(i, k); vx_assert(t == (q < 0 && !nw), "set refuses exactly unknown keys when told so"); if (t) return; if (q >= 0) { vx_assert(r == q, "position of a replaced element"); mUpdated(i, q, v, false); } else { vx_assert(r == m[i].n, "position of an added element"); mAdded(i, m[i].n, v, false, k); } }
  void kIns(int i) { uint8_t k = anyKey(); char b[2]; key(b, k); int32_t p = vx_u32("index"); TiInt *v = fresh(); bool t = false; try { c[i]->insert(p, b, mkp<P>(v)); } catch (Srl::InvalidArgumentException &) { t = true; } b[0] = '?';
    bool ok = mFind(i, k) < 0 && (uint32_t)p <= (uint32_t)m[i].n && (uint32_t)p >= (uint32_t)bn(i); vx_assert(t == !ok, "insert accepts exactly new keys and positions after the base's elements"); if (t) return; p = vx_fork(p); mAdded(i, p, v, false, k); }
  void kDel(int i) { uint8_t k = anyKey(); char b[2]; key(b, k); bool t = false; int r = -1; try { r = c[i]->remove(b); } catch (Srl::InvalidArgumentException &) { t = true; } b[0] = '?';
    int q = mFind(i, k); vx_assert(t == (q < 0 || m[i].inh[q]), "remove accepts exactly the keys the map itself holds"); if (t) return; vx_assert(r == q, "position of a removed element"); mRem(i, q); }
  void kGet(int i) { uint8_t k = anyKey(); char b[2]; key(b, k); bool t = false; TiInt *r = 0; int f = c[i]->findIndex(b); try { r = rp(c[i]->get(b)); } catch (Srl::InvalidArgumentException &) { t = true; } int q = mFind(i, k); vx_assert(f == q && t == (q < 0), "search for a key"); if (q >= 0) vx_assert(r == m[i].v[q], "element found by key"); }
  void step(int op);
  void finish() { verify(); for (int i = 0; i < NC; i++) if (m[i].alive) { destroy(i); verify(); } }
};
template <> void Run<SharedList<TiInt>>::step(int op) { int i = vx_choose(NC, "which"); if (!m[i].alive) return; switch (op) { case 0: set(i); break; case 1: remove(i); break; case 2: get(i); break; case 3: clear(i); break; case 4: rebase(i); break; case 5: destroy(i); break; case 6: lAdd(i); break; case 7: lIns(i); break; } verify(); }
template <> void Run<PlainList<TiInt>>::step(int op) { int i = vx_choose(NC, "which"); if (!m[i].alive) return; switch (op) { case 0: set(i); break; case 1: remove(i); break; case 2: get(i); break; case 3: clear(i); break; case 4: rebase(i); break; case 5: destroy(i); break; case 6: lAdd(i); break; case 7: lIns(i); break; } verify(); }
template <class L> void Run<L>::step(int op) { int i = vx_choose(NC, "which"); if (!m[i].alive) return; switch (op) { case 0: set(i); break; case 1: remove(i); break; case 2: get(i); break; case 3: clear(i); break; case 4: rebase(i); break; case 5: destroy(i); break; case 6: kAdd(i); break; case 7: kIns(i); break; case 8: kSet(i); break; case 9: kDel(i); break; case 10: kGet(i); break; } verify(); }
#if VX_THOROUGH
#define STEPS 2
#else
#define STEPS 1
#endif
template <class L> static void run(bool map, int first, int nops) {
  isMap = map; used = 0; { SharedPtr<TiInt> keep[NP]; for (int i = 0; i < NP; i++) { keep[i] = TiInt::create(i); pool[i] = keep[i].get(); }
  TiInt::getTypeInfo(); int l0 = vx_live();
  { static const int shapes[] = {0, 3, 7, 11, 19, 23, 39, 51}; int sh = vx_choose(8, "start"); useIdx = map && (VX_THOROUGH ? vx_choose(2, "indexed") : (sh ^ first) & 1); Run<L> r; r.setup(shapes[sh]); r.step(first); for (int s = 1; s < STEPS; s++) r.step(vx_choose(nops, "op")); r.finish(); }
  vx_assert(vx_live() == l0, "all storage released"); for (int i = 0; i < NP; i++) vx_assert(keep[i].getRefCounter()->count == 1, "no element kept or released too often"); vx_cover("end"); } }
#define LE(n) extern "C" void t_sl##n() { run<SharedList<TiInt>>(false, n, 8); } extern "C" void t_pl##n() { run<PlainList<TiInt>>(false, n, 8); }
#define ME(n) extern "C" void t_sm##n() { run<SharedMap<TiInt>>(true, n, 11); } extern "C" void t_pm##n() { run<PlainMap<TiInt>>(true, n, 11); }
LE(0) LE(1) LE(2) LE(3) LE(4) LE(5) LE(6) LE(7)
ME(0) ME(1) ME(2) ME(3) ME(4) ME(5) ME(6) ME(7) ME(8) ME(9) ME(10)
