#define IMAX 1073741823
#define OPNAME "add"
#define OP +
#define WANT(x, y) ((x) + (y))
#include "P01.inc"
VP_HARNESS(add_vec) { go<0>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_dbl) { go<1>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_ivec) { go<2>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_int) { go<3>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_tmp) { go<4>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_subset) { go<5>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_expr) { go<6>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_neg) { go<7>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_borrow) { go<8>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(add_lgl) { go<9>(vp_pick(vp_int(0, KINDS - 1))); }
