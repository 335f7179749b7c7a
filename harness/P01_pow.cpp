#define OPNAME "pow"
#define OP ^
#define ISPOW
#define WANT(x, y) (std::pow((double)(x), (double)(y)))
#include "P01.inc"
VP_HARNESS(pow_vec) { go<0>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(pow_dbl) { go<1>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(pow_ivec) { go<2>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(pow_int) { go<3>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(pow_tmp) { go<4>(vp_pick(vp_int(0, KINDS - 1))); }
VP_HARNESS(pow_expr) { go<6>(vp_pick(vp_int(0, KINDS - 1))); }
