// C25: positions of the members of a subset, kept by SubsetIndex while elements come and go.
#include "core.h"
#include "vx.h"
using namespace Core::Basic;
static bool in[16]; static int n;
static void verify(SubsetIndex &s) { int k = 0; for (int i = 0; i < n; i++) if (in[i]) { vx_assert(k < (int)s.getSize() && s.get(k) == i, "position of a member"); k++; } vx_assert((int)s.getSize() == k, "number of members");
  bool t = false; try { s.get(k); } catch (Srl::InvalidArgumentException &) { t = true; } vx_assert(t, "no member beyond the last"); }
static void run(int pre, int steps) {
  SubsetIndex s; n = 0;
  for (int i = 0; i < pre; i++) { in[i] = vx_choose(2, "member"); s.onAdded(i, in[i]); n++; }
  verify(s);
  for (int st = 0; st < steps; st++) {
    int op = vx_choose(4, "op"); int32_t p = vx_u32("at"); bool b = vx_choose(2, "within");
    if (op == 0) { vx_assume(p >= 0 && p <= n); s.onAdded(p, b); p = vx_fork(p); for (int q = n; q > p; q--) in[q] = in[q - 1]; in[p] = b; n++; }
    else if (op == 1) { vx_assume(p >= 0 && p < n); s.onUpdated(p, b); p = vx_fork(p); in[p] = b; }
    else if (op == 2) { vx_assume(p >= 0 && p < n); s.onRemoved(p); p = vx_fork(p); n--; for (int q = p; q < n; q++) in[q] = in[q + 1]; }
    else { s.clear(); n = 0; }
    verify(s); }
  vx_cover("end"); }
extern "C" void t_subset0() { run(0, 2); }
extern "C" void t_subset1() { run(1, 2); }
extern "C" void t_subset2() { run(2, 2); }
extern "C" void t_subset3() { run(3, 1); }
extern "C" void t_subset4() { run(4, 1); }
extern "C" void t_subset5() { run(5, 1); }
#if VX_THOROUGH
extern "C" void t_subset0x() { run(0, 3); }
extern "C" void t_subset3x() { run(3, 2); }
extern "C" void t_subset4x() { run(4, 2); }
extern "C" void t_subset6() { run(6, 1); }
extern "C" void t_subset7() { run(7, 1); }
#endif
