#include "P08.inc"
VP_HARNESS(bor_all) { readVar<3>(0); }
VP_HARNESS(bor_int) { readVar<3>(1); }
VP_HARNESS(bor_dbl) { readVar<3>(2); }
VP_HARNESS(bor_vint) { readVar<3>(3); }
VP_HARNESS(bor_vdbl) { readVar<3>(4); }
VP_HARNESS(bor_vlgl) { readVar<3>(5); }
VP_HARNESS(bor_colon) { readVar<3>(6); }
VP_HARNESS(bor_coca) { readVar<3>(7); }
VP_HARNESS(bor_cocad) { readVar<3>(8); }
VP_HARNESS(bor_expr) { readVar<3>(9); }
VP_HARNESS(bor_cmp) { readVar<3>(10); }
VP_HARNESS(bor_sub) { readVar<3>(11); }
VP_HARNESS(bor_borrow) { readVar<3>(12); }
VP_HARNESS(bor_cocab) { readVar<3>(13); }
VP_HARNESS(bor_lsub) { readVar<3>(14); }
VP_HARNESS(bor_neg) { readVar<3>(15); }
VP_HARNESS(bor_not) { readVar<3>(16); }
