#define IMAX 2147483647
#define OPNAME "div"
#define OP /
#define WANT(x, y) ((double)(x) / (double)(y))
#include "P01.inc"
VP_HARNESS(div_vec) { go<0>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_dbl) { go<1>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_ivec) { go<2>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_int) { go<3>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_tmp) { go<4>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_subset) { go<5>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_expr) { go<6>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_neg) { go<7>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_borrow) { go<8>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(div_lgl) { go<9>(vp_pick(vp_int(0, KINDS - 1))); }
