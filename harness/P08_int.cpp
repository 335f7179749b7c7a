#include "P08.inc"
VP_HARNESS(int_all) { readVar<1>(0); }
VP_HARNESS(int_int) { readVar<1>(1); }
VP_HARNESS(int_dbl) { readVar<1>(2); }
VP_HARNESS(int_vint) { readVar<1>(3); }
VP_HARNESS(int_vdbl) { readVar<1>(4); }
VP_HARNESS(int_vlgl) { readVar<1>(5); }
VP_HARNESS(int_colon) { readVar<1>(6); }
VP_HARNESS(int_coca) { readVar<1>(7); }
VP_HARNESS(int_cocad) { readVar<1>(8); }
VP_HARNESS(int_expr) { readVar<1>(9); }
VP_HARNESS(int_cmp) { readVar<1>(10); }
VP_HARNESS(int_sub) { readVar<1>(11); }
VP_HARNESS(int_borrow) { readVar<1>(12); }
VP_HARNESS(int_cocab) { readVar<1>(13); }
VP_HARNESS(int_lsub) { readVar<1>(14); }
VP_HARNESS(int_neg) { readVar<1>(15); }
VP_HARNESS(int_not) { readVar<1>(16); }
