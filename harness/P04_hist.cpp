#include "hist.h"
#ifdef VP_THOROUGH
constexpr int DEPTH = 3;
#else
constexpr int DEPTH = 2;
#endif
static void hist(int lo, int hi) {
  World<2> w;
  switch (vp_pick(vp_int(0, 2))) {
  case 0: w.freshMat(0, 2, 3); w.fresh(1, 3); break;
  case 1: w.freshMat(0, 2, 2); w.freshMat(1, 2, 2); break;
  case 2: w.freshMat(1, 3, 1); w.fresh(0, 1); break;
  }
  for (int k = 0; k < DEPTH; k++) {
    int op = vp_pick(k ? vp_int(0, NOPS - 1) : vp_int(lo, hi));
    int x = vp_pick(vp_int(0, 1)), y = vp_pick(vp_int(0, 1));
    if (!step(w, op, x, y)) return;
    w.check("shape.state");
  }
}
VP_HARNESS(mhist_0) { hist(0, 1); }
VP_HARNESS(mhist_2) { hist(2, 3); }
VP_HARNESS(mhist_4) { hist(4, 4); }
VP_HARNESS(mhist_5) { hist(5, 5); }
VP_HARNESS(mhist_6) { hist(6, 8); }
VP_HARNESS(mhist_9) { hist(9, 9); }
VP_HARNESS(mhist_10) { hist(10, 10); }
VP_HARNESS(mhist_11) { hist(11, 12); }
VP_HARNESS(mhist_13) { hist(13, 14); }
VP_HARNESS(mhist_15) { hist(15, 16); }
VP_HARNESS(mhist_17) { hist(17, 19); }
VP_HARNESS(mhist_20) { hist(20, 21); }
