#include "P20.inc"
VP_HARNESS(linear) { one<LIN>(-10, 10, false, 1); }
VP_HARNESS(linear_init) { one<LIN>(-10, 10, true, 1); }
VP_HARNESS(products) { one<MUL>(-10, 10, false, 1); }
VP_HARNESS(products_init) { one<MUL>(-10, 10, true, 1); }
VP_HARNESS(start) { DW w(vp_pick(vp_int(0, 2))); int n = vp_pick(vp_int(1, 3)); w.init(n, 2, 1, -10, 10); w.check(); w.fillK(vp_pick(vp_int(1, 3)), -10, 10); w.byConst<1>(); w.check(); w.byConst<0>(); w.check(); }
VP_HARNESS(start_init) { DW w(vp_pick(vp_int(0, 2))); w.initB(vp_pick(vp_int(1, 3)), 2, 1, -10, 10); w.check(); w.check(); }
