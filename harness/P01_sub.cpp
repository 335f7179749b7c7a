#define IMAX 1073741823
#define OPNAME "sub"
#define OP -
#define WANT(x, y) ((x) - (y))
#include "P01.inc"
VP_HARNESS(sub_vec) { go<0>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_dbl) { go<1>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_ivec) { go<2>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_int) { go<3>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_tmp) { go<4>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_subset) { go<5>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_expr) { go<6>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_neg) { go<7>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_borrow) { go<8>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(sub_lgl) { go<9>(vp_pick(vp_int(0, KINDS - 1))); }
