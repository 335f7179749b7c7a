#define OPNAME "mul"
#define OP *
#define WANT(x, y) ((x) * (y))
#include "P01.inc"
VP_HARNESS(mul_vec) { go<0>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_dbl) { go<1>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_ivec) { go<2>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_int) { go<3>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_tmp) { go<4>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_subset) { go<5>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_expr) { go<6>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_neg) { go<7>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_borrow) { go<8>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(mul_lgl) { go<9>(vp_pick(vp_int(0, KINDS - 1))); }
