#include "hist.h"
#ifdef VP_THOROUGH
constexpr int DEPTH = 3;
#else
constexpr int DEPTH = 2;
#endif
static void init(World<2> &w, int op) {
  if (op == 18) { w.freshMat(0, 2, 3); w.fresh(1, 3); return; }
  int s = vp_pick(vp_int(0, 4));
  static const int A[] = {0, 1, 3, 2, 5}, B[] = {2, 4, 3, 1, 2};
  w.fresh(0, A[s]); w.fresh(1, B[s]);
}
static void hist(int op) {
  World<2> w;
  init(w, op);
  for (int k = 0; k < DEPTH; k++) {
    if (k) op = vp_pick(vp_int(0, NOPS - 1));
    int x = vp_pick(vp_int(0, 1)), y = vp_pick(vp_int(0, 1));
    if (!step(w, op, x, y)) return;
    w.check("assign.state");
  }
}
