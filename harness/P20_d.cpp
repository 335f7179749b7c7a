#include "P20.inc"
constexpr unsigned long H = 1ul << 2 | 1ul << 4 | 1ul << 6 | 1ul << 9 | 1ul << 18;
static void history(int steps, int nmax) { DW w(vp_pick(vp_int(0, 1))); int n = nmax == 1 ? 2 : 1; w.init(2, n, n, -2, 2); w.consts(2, -2, 2); for (int s = 0; s < steps; s++) { int j = vp_pick(vp_int(0, 2)); int f = pickForm<H>(); target<H>(w, j, f); } w.check(); }
VP_HARNESS(history2) { history(2, 1); }
VP_HARNESS(history2_recycled) { history(2, 2); }
constexpr unsigned long G = 1ul << 2 | 1ul << 6 | 1ul << 7;
VP_HARNESS(history3) { DW w(vp_pick(vp_int(0, 1))); w.initB(1, 2, 1, -2, 2); w.consts(1, -2, 2); for (int s = 0; s < 3; s++) { int j = vp_pick(vp_int(0, 2)); int f = pickForm<G>(); target<G>(w, j, f); } w.check(); }
VP_HARNESS(reseed) { DW w(vp_pick(vp_int(0, 2))); w.init(2, 2, 2, -2, 2); w.consts(2, -2, 2); int f = pickForm<H>(); target<H>(w, 1, f); w.byConst<0>(); w.check(); f = pickForm<H>(); target<H>(w, 0, f); w.byConst<2>(); w.check(); }
// a variable that carries a derivative is set to constants of the same or another length, then used
template <int J> static void again(int n) { DW w(vp_pick(vp_int(0, 2))); w.init(2, 2, n, -2, 2); w.consts(2, -2, 2); int f = pickForm<H>(); target<H>(w, J, f); w.fillK(vp_pick(vp_int(1, 3)), -2, 2); w.byConst<J>(); w.check(); f = pickForm<G>(); target<G>(w, vp_pick(vp_int(0, 2)), f); w.check(); }
VP_HARNESS(again_a) { again<0>(2); }
VP_HARNESS(again_b) { again<1>(1); }
VP_HARNESS(again_c) { again<2>(2); }
#ifdef VP_THOROUGH
VP_HARNESS(history3_wide) { history(3, 1); }
VP_HARNESS(history4) { DW w(vp_pick(vp_int(0, 1))); w.init(1, 1, 1, -2, 2); w.consts(1, -2, 2); for (int s = 0; s < 4; s++) { int j = vp_pick(vp_int(0, 2)); int f = pickForm<G>(); target<G>(w, j, f); } w.check(); }
#endif
