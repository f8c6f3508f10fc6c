// C24: shared and weak pointers of the compiler core, against a model of owners.
#include "core.h"
#include "vx.h"
using namespace Core::Basic;
static const int NO = 6;                 // objects of one run
static int gone[NO];                     // destructions seen
static int linkOf[NO];                   // model: what the object's member points to (-1 none)
static bool made[NO];
static int nObj;
static uint32_t payload[NO];              // free contents of the objects
struct Iface : TiInterface {
  INTERFACE_INFO(Iface, TiInterface, "Vx", "Vx", "vx");
  virtual int ifaceId() = 0; virtual TiObject *getTiObject() = 0; virtual TiObject const *getTiObject() const = 0;
};
struct Base : TiObject {
  TYPE_INFO(Base, TiObject, "Vx", "Vx", "vx");
  int id; SharedPtr<Base> next; uint32_t val; char pad[24];
  Base(int i) : id(i), val(payload[i]) {}
  virtual ~Base() { gone[id]++; }
};
struct Der : Base, Iface {
  TYPE_INFO(Der, Base, "Vx", "Vx", "vx", (INHERITANCE_INTERFACES(Iface)));
  int extra;
  uint32_t extra2; Der(int i) : Base(i), extra(i + 100), extra2(payload[i] * 7 + i) {}
  virtual ~Der() { vx_assert(extra == id + 100 && extra2 == val * 7 + id, "object intact when destroyed"); }
  int ifaceId() { return id; }
};
struct Plain { int id; SharedPtr<Base> next; Plain(int i) : id(i) {} ~Plain() { gone[id]++; } };

static SharedPtr<Base> *v[3]; static int mv[3];   // three variables and what they must point to
static WeakPtr<Base> *w; static int mw;           // a weak one
static Base *raw[NO]; static bool der[NO];
static bool alive(int i) { if (!made[i]) return false; bool m[NO] = {}; for (int k = 0; k < 3; k++) if (mv[k] >= 0) m[mv[k]] = true;
  for (int r = 0; r < NO; r++) for (int k = 0; k < nObj; k++) if (m[k] && linkOf[k] >= 0) m[linkOf[k]] = true; return m[i]; }
static void verify() {
  for (int i = 0; i < nObj; i++) vx_assert(gone[i] == !alive(i), alive(i) ? "object destroyed while owned" : "object not destroyed exactly once when its last owner went");
  for (int k = 0; k < 3; k++) {
    if (mv[k] < 0) { vx_assert(v[k]->get() == 0, "empty pointer"); vx_assert(*v[k] == 0, "empty pointer compares to null"); continue; }
    vx_assert(v[k]->get() == raw[mv[k]], "pointer to the assigned object");
    vx_assert((*v[k])->id == mv[k] && (*v[k])->val == payload[mv[k]], "object intact");
    for (int j = 0; j < 3; j++) vx_assert((*v[k] == *v[j]) == (mv[k] == mv[j]) && (*v[k] != *v[j]) == (mv[k] != mv[j]), "comparison of pointers");
    int l = linkOf[mv[k]]; vx_assert((*v[k])->next.get() == (l < 0 ? 0 : raw[l]), "member pointer");
  }
}
static SharedPtr<Base> thr(SharedPtr<Base> p) { return p; }
static SharedPtr<TiObject> up(SharedPtr<Base> const &p) { return p; }
static void drop(int o) { if (mw >= 0 && !alive(mw)) { mw = -1; w->release(); } }
static int fresh(int k) { int i = nObj++; made[i] = true; linkOf[i] = -1; return i; }
static void step(int op) {
  switch (op) {
    case 0: { int k = vx_choose(2, "new"); if (nObj >= NO) break; int i = fresh(k); *v[k] = newSrdObj<Base>(i); raw[i] = v[k]->get(); mv[k] = i; break; }
    case 1: { int k = vx_choose(2, "newD"); if (nObj >= NO) break; int i = fresh(k); auto d = newSrdObj<Der>(i); raw[i] = d.get(); der[i] = true; *v[k] = d; mv[k] = i; break; }
    case 2: { int a = vx_choose(3, "to"), b = vx_choose(3, "from"); *v[a] = *v[b]; mv[a] = mv[b]; break; }
    case 3: { int k = vx_choose(3, "reset"); if ((vx_u8("how") & 1)) v[k]->reset(); else *v[k] = SharedPtr<Base>::null; mv[k] = -1; break; }
    case 4: { int a = vx_choose(3, "obj"), b = vx_choose(3, "val"); if (mv[a] < 0 || (mv[b] >= 0 && mv[b] <= mv[a])) break; (*v[a])->next = *v[b]; linkOf[mv[a]] = mv[b]; break; }
    case 5: { int a = vx_choose(3, "into"), b = vx_choose(3, "of"); if (mv[b] < 0) break; *v[a] = (*v[b])->next; mv[a] = linkOf[mv[b]]; break; }  // the member may live in the object being released
    case 6: { int a = vx_choose(2, "a"), b = vx_choose(2, "b"); *v[a] = thr(*v[b]); mv[a] = mv[b]; break; }
    case 7: { int a = vx_choose(2, "a"), b = vx_choose(2, "b"); SharedPtr<TiObject> u = up(*v[b]); *v[a] = (vx_u8("s") & 1) ? u.s_cast<Base>() : u.ti_cast<Base>(); mv[a] = mv[b]; break; }
    case 8: { int a = vx_choose(2, "a"), b = vx_choose(2, "b"); if (mv[b] < 0) break; // cast to the derived type: keeps the object only if it is one
      bool isD = der[mv[b]]; SharedPtr<Der> d = v[b]->ti_cast<Der>(); vx_assert((d.get() != 0) == isD, "cast to a derived type"); SharedPtr<Iface> f = v[b]->ti_cast<Iface>();
      vx_assert((f.get() != 0) == isD, "cast to an interface"); if (isD) { vx_assert(f->ifaceId() == mv[b], "object behind an interface"); int o = mv[b]; v[b]->reset(); mv[b] = -1; *v[a] = d; mv[a] = o; d.reset(); vx_assert(f->ifaceId() == o, "interface pointer owns"); if ((vx_u8("re") & 1)) { SharedPtr<Base> z = getSharedPtr(f.get()).ti_cast<Base>(); vx_assert(z.get() == raw[o], "shared pointer from an interface"); } } break; }
    case 9: { int a = vx_choose(3, "a"), b = vx_choose(3, "b"); if (mv[b] < 0) { vx_assert(getSharedPtr((Base *)0).get() == 0, "null"); break; } *v[a] = getSharedPtr(v[b]->get(), (vx_u8("own") & 1)); mv[a] = mv[b]; break; }
    case 10: { int b = vx_choose(3, "b"); if ((vx_u8("wk") & 1)) *w = *v[b]; else { if (mv[b] < 0) break; *w = getWeakPtr(v[b]->get()); } mw = mv[b]; break; }
    case 11: { int a = vx_choose(3, "a"); if (mw < 0) { vx_assert(w->get() == 0 && w->getRefCounter() == 0, "empty weak pointer"); break; } vx_assert(w->get() == raw[mw] && w->ti_cast_get<TiObject>() == raw[mw], "weak pointer to the object");
      if ((vx_u8("c") & 1)) *v[a] = *w; else *v[a] = w->s_cast<Base>(); mv[a] = mw; break; }
    case 12: { int a = vx_choose(2, "a"); if (nObj >= NO) break; int i = fresh(a); Base *b; if ((vx_u8("d") & 1)) { Der *d = new Der(i); b = d; der[i] = true; if ((vx_u8("if") & 1)) { Iface *f = d; *v[a] = getSharedPtr(f, true).ti_cast<Base>(); } else *v[a] = getSharedPtr(d, true); } else { b = new Base(i); *v[a] = getSharedPtr(b, true); }
      raw[i] = b; mv[a] = i; SharedPtr<Base> again = getSharedPtr(b, true), third = getSharedPtr(b); vx_assert(again.get() == b && third.get() == b, "shared pointer of an owned object"); break; }
    case 13: { int a = vx_choose(3, "a"), b = vx_choose(3, "b"); SharedPtr<Base> c(*v[a]); *v[a] = *v[b]; *v[b] = c; int t = mv[a]; mv[a] = mv[b]; mv[b] = t; break; }
    case 14: { int a = vx_choose(3, "a"); WeakPtr<Base> t(*w), z; z = t; t.release(); *w = z; { SharedPtr<Base> s; s.assign(v[a]->getRefCounter(), v[a]->get()); SharedPtr<TiObject const> c(s); vx_assert(c.get() == (mv[a] < 0 ? 0 : raw[mv[a]]), "converted pointer"); } break; }
  }
  drop(0); verify();
}
static void run(int first, int steps) {
  for (int i = 0; i < NO; i++) { gone[i] = 0; linkOf[i] = -1; made[i] = der[i] = false; raw[i] = 0; payload[i] = vx_u32("payload"); } nObj = 0;
  Base::getTypeInfo(); Der::getTypeInfo(); Iface::getTypeInfo();
  int l0 = vx_live();
  { SharedPtr<Base> a, b, c; WeakPtr<Base> k; v[0] = &a; v[1] = &b; v[2] = &c; w = &k; mv[0] = mv[1] = mv[2] = mw = -1;
    // start: two or three objects, possibly linked
    int i = fresh(0); a = newSrdObj<Base>(i); raw[i] = a.get(); mv[0] = i;
    i = fresh(1); { auto d = newSrdObj<Der>(i); b = d; } raw[i] = b.get(); der[i] = true; mv[1] = i;
    int s = vx_choose(4, "start");
    if (s == 1) { a->next = b; linkOf[0] = 1; } else if (s == 2) { c = a; mv[2] = 0; } else if (s == 3) { a->next = b; linkOf[0] = 1; b.reset(); mv[1] = -1; }
    k = a; mw = 0; verify();
    step(first);
    for (int j = 1; j < steps; j++) step(vx_choose(15, "op"));
    vx_cover("end");
  }
  for (int k = 0; k < 3; k++) mv[k] = -1;
  for (int i = 0; i < nObj; i++) vx_assert(gone[i] == 1, "every object destroyed exactly once in the end");
  vx_assert(vx_live() == l0, "all storage released");
}
#if VX_THOROUGH
#define STEPS 3
#else
#define STEPS 2
#endif
#define E(n) extern "C" void t_op##n() { run(n, STEPS); }
E(0) E(1) E(2) E(3) E(4) E(5) E(6) E(7) E(8) E(9) E(10) E(11) E(12) E(13) E(14)
extern "C" void t_plain() {   // objects outside the type system
  for (int i = 0; i < NO; i++) gone[i] = 0;
  int l0 = vx_live();
  { SharedPtr<Plain> a = newSrdObj<Plain>(0), b; SharedPtr<Plain> c = SharedPtr<Plain>::ownToNew(new Plain(1)); SharedPtr<Plain> *p[3] = {&a, &b, &c}; int m[3] = {0, -1, 1};
    for (int j = 0; j < 3; j++) { int x = vx_choose(3, "x"), y = vx_choose(4, "y"); if (y == 3) { p[x]->reset(); m[x] = -1; } else { *p[x] = *p[y]; m[x] = m[y]; }
      for (int i = 0; i < 2; i++) { bool al = m[0] == i || m[1] == i || m[2] == i; vx_assert(gone[i] == !al, "plain object lives as long as it is owned"); if (al) for (int q = 0; q < 3; q++) if (m[q] == i) vx_assert((*p[q])->id == i, "plain object"); } } }
  vx_assert(gone[0] == 1 && gone[1] == 1 && vx_live() == l0, "plain objects released"); vx_cover("plain");
}
