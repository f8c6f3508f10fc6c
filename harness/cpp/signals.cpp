// C27: signals, slots and relays: an emission reaches exactly the connected slots, whatever the slots do meanwhile.
#include "core.h"
#include "vx.h"
using namespace Core::Basic;
static const int NS = 3, NL = 4; // signals, slots (slots 0 and 1 are connected directly, 2 and 3 through the relay when there is one)
template <class RT> struct W;
template <class RT> struct W {
  typedef Signal<RT, Int> Sg; typedef Slot<RT, Int> Sl; typedef SignalRelay<RT, Int> Rl;
  struct Rec { W *w; int id; RT on(Int a) { return w->called(id, a); } };
  Sg *sig[NS]; Sl *slot[NL]; Rec rec[NL]; Rl *rel; bool relayed[NS]; bool inRel[NL];
  int cn[NS], cv[NS][NL];                                    // model: the slots of each signal, in order
  Int arg; int calls[NL], exp[NL], depth, firing; bool res[NL]; int actor, action, other, done; int order[16], no;
  bool has(int s, int k) { for (int i = 0; i < cn[s]; i++) if (cv[s][i] == k) return true; return false; }
  void mC(int s, int k) { if (!has(s, k)) cv[s][cn[s]++] = k; }
  void mD(int s, int k) { for (int i = 0; i < cn[s]; i++) if (cv[s][i] == k) { cn[s]--; for (; i < cn[s]; i++) cv[s][i] = cv[s][i + 1]; return; } }
  void connect(int s, int k) { if (!slot[k]) return; if (k >= 2 && rel) { rel->connect(*slot[k]); inRel[k] = true; for (int q = 0; q < NS; q++) if (sig[q] && relayed[q]) mC(q, k); } else if (sig[s]) { sig[s]->connect(*slot[k]); mC(s, k); } }
  void disconnect(int s, int k) { if (!slot[k]) return; if (k >= 2 && rel) { rel->disconnect(*slot[k]); inRel[k] = false; for (int q = 0; q < NS; q++) if (sig[q] && relayed[q]) mD(q, k); } else if (sig[s]) { sig[s]->disconnect(*slot[k]); mD(s, k); } }
  void quit(int k) { if (!slot[k]) return; slot[k]->disconnect(); gone(k); }
  void gone(int k) { for (int s = 0; s < NS; s++) mD(s, k); inRel[k] = false; }
  void kill(int k) { if (!slot[k]) return; delete slot[k]; slot[k] = 0; gone(k); }
  void killSig(int s) { if (!sig[s]) return; delete sig[s]; sig[s] = 0; cn[s] = 0; relayed[s] = false; }
  void all(int s) { if (!sig[s]) return; sig[s]->disconnectAll(); cn[s] = 0; relayed[s] = false; }
  void relay(int s, bool on) { if (!rel || !sig[s]) return; if (on) rel->relay(*sig[s]); else rel->unrelay(*sig[s]); relayed[s] = on; for (int k = 2; k < NL; k++) if (inRel[k]) { if (on) mC(s, k); else mD(s, k); } }
  void killRel() { if (!rel) return; for (int s = 0; s < NS; s++) if (relayed[s]) for (int k = 2; k < NL; k++) if (inRel[k]) mD(s, k); delete rel; rel = 0; for (int s = 0; s < NS; s++) relayed[s] = false; for (int k = 0; k < NL; k++) inRel[k] = false; }
  RT called(int id, Int a) {
    vx_assert(slot[id] != 0, "no destroyed slot is called"); vx_assert(a == arg, "a slot receives the emitted value"); vx_assert(has(firing, id), "no disconnected slot is called");
    calls[id]++; if (no < 16) order[no++] = id;
    bool r = res[id];
    if (depth == 1 && id == actor && !done) { done = 1; switch (action) {
      case 1: disconnect(firing, other); break; case 2: if (other != id) kill(other); break; case 3: connect(firing, other); break; case 4: quit(other); break; case 5: all(firing); break;
      case 6: { depth++; fire(); depth--; } break; case 7: relay(firing, !relayed[firing]); break; case 8: if (other != id) { kill(other); remake(other); } break; case 9: disconnect(firing, other); connect(firing, other); break; case 10: if (other != id) kill(other); killRel(); break; } }
    return (RT)r; }
  int fire();
  void make(int k) { rec[k].w = this; rec[k].id = k; slot[k] = new Sl(&rec[k], &Rec::on); }
  void remake(int k) { make(k); connect(firing, k); }
  // what an emission must do, when no slot interferes: every connected slot is called once, in order of connection
  void emit(int s) { if (!sig[s]) return; firing = s; arg = vx_u32("value"); for (int k = 0; k < NL; k++) { res[k] = vx_u8("answer") & 1; calls[k] = 0; } no = 0; depth = 1;
    int bn = cn[s], b[NL]; for (int i = 0; i < bn; i++) b[i] = cv[s][i]; bool quiet = true; for (int i = 0; i < bn; i++) if (b[i] == actor && action && !done) quiet = false;
    int r = fire();
    if (quiet) { vx_assert(no == bn, "every connected slot is called"); for (int i = 0; i < bn; i++) vx_assert(order[i] == b[i], "slots are called in order of connection"); int c = 0; for (int i = 0; i < bn; i++) c += res[b[i]]; vx_assert(std::is_void<RT>::value || r == c, "number of slots that answered yes"); }
    else { for (int i = 0; i < bn; i++) if (!(action == 9 && b[i] == other) && !(action == 8 && b[i] == other) && has(s, b[i])) vx_assert(calls[b[i]] >= 1, "a slot that stays connected is called");
      for (int k = 0; k < NL; k++) { bool was = false; for (int i = 0; i < bn; i++) if (b[i] == k) was = true; if (action != 6) vx_assert(calls[k] <= (was ? 1 : 0), "a slot is called once, and not before it was connected"); else vx_assert(calls[k] <= 2, "once per emission"); } }
  }
  // the first slot that answers yes ends the emission
  void any(int s) { if (!sig[s]) return; firing = s; arg = vx_u32("value"); for (int k = 0; k < NL; k++) { res[k] = vx_u8("answer") & 1; calls[k] = 0; } no = 0; depth = 5; bool r = fireAny(); int i = 0; bool yes = false;
    for (; i < cn[s]; i++) { vx_assert(i < no && order[i] == cv[s][i], "slots are asked in order of connection"); if (res[cv[s][i]]) { yes = true; i++; break; } } vx_assert(no == i, "no slot is asked after the first yes"); vx_assert(r == yes, "whether any slot answered yes"); }
  bool fireAny();
  void still() { for (int s = 0; s < NS; s++) if (sig[s]) { int a = action; action = 0; emit(s); action = a; } }
  void setup(bool withRel) {
    for (int s = 0; s < NS; s++) { sig[s] = new Sg(); cn[s] = 0; relayed[s] = false; } for (int k = 0; k < NL; k++) { make(k); inRel[k] = false; } rel = withRel ? new Rl() : 0; done = 0; action = 0; actor = 0;
    int m = vx_choose(4, "connected"); if (withRel) { relay(0, true); if (m & 1) relay(1, true); }
    connect(0, 1); connect(0, 2); connect(0, 0); if (m & 2) connect(0, 3); if (m & 1) { connect(1, 0); connect(1, 1); connect(1, 3); } connect(2, 0); connect(2, 3); }
  void op(int o) { int k = vx_choose(NL, "slot"), s = vx_choose(2, "signal"); switch (o) {
    case 0: connect(s, k); break; case 1: disconnect(s, k); break; case 2: vx_assume(s == 0); quit(k); break; case 3: vx_assume(s == 0); kill(k); break; case 4: vx_assume(k == 0); killSig(s); break; case 5: vx_assume(k == 0); all(s); break;
    case 6: vx_assume(k == 0); relay(s, !relayed[s]); break; case 7: vx_assume(k == 0 && s == 0); killRel(); break; } }
  void finish() { int first = vx_choose(3, "end"); if (first == 0) killRel(); if (first == 1) for (int s = 0; s < NS; s++) killSig(s); for (int k = 0; k < NL; k++) { kill(k); if (k == 1) still(); } for (int s = 0; s < NS; s++) killSig(s); killRel(); }
  void leave() { for (int k = 0; k < NL; k++) kill(k); for (int s = 0; s < NS; s++) killSig(s); killRel(); }
};
template <> int W<void>::fire() { sig[firing]->emit(arg); return 0; }
template <> int W<Bool>::fire() { return sig[firing]->emit(arg); }
template <> bool W<void>::fireAny() { return false; }
template <> bool W<Bool>::fireAny() { return sig[firing]->emitAny(arg); }
#if VX_THOROUGH
#define STEPS 2
#else
#define STEPS 1
#endif
// any operation between emissions
template <class RT> static void ops(bool withRel, int o, bool any) { int l0 = vx_live(); { W<RT> w; w.setup(withRel); w.still(); w.op(o); w.still(); for (int q = 1; q < STEPS; q++) { w.op(vx_choose(8, "op")); w.still(); } if (any) { w.any(0); w.any(1); } w.finish(); } vx_assert(vx_live() == l0, "all storage released"); vx_cover("end"); }
// a slot that changes the connections while it is being called
template <class RT> static void act(bool withRel, int a) { int l0 = vx_live(); { W<RT> w; w.setup(withRel); w.actor = vx_choose(NL, "actor"); w.other = vx_choose(NL, "other"); w.action = a; w.emit(0); w.still(); w.leave(); } vx_assert(vx_live() == l0, "all storage released"); vx_cover("end"); }
#define O(n) extern "C" void t_op##n() { ops<void>(false, n, false); } extern "C" void t_opb##n() { ops<Bool>(false, n, true); } extern "C" void t_opr##n() { ops<Bool>(true, n, true); }
O(0) O(1) O(2) O(3) O(4) O(5)
extern "C" void t_opr6() { ops<void>(true, 6, false); } extern "C" void t_opr7() { ops<void>(true, 7, false); }
#define A(n) extern "C" void t_act##n() { act<Bool>(false, n); } extern "C" void t_actr##n() { act<void>(true, n); }
A(1) A(2) A(3) A(4) A(5) A(6) A(8) A(9) extern "C" void t_actr7() { act<void>(true, 7); } extern "C" void t_actr10() { act<void>(true, 10); }
