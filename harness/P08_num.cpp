#include "P08.inc"
VP_HARNESS(num_all) { readVar<0>(0); }
VP_HARNESS(num_int) { readVar<0>(1); }
VP_HARNESS(num_dbl) { readVar<0>(2); }
VP_HARNESS(num_vint) { readVar<0>(3); }
VP_HARNESS(num_vdbl) { readVar<0>(4); }
VP_HARNESS(num_vlgl) { readVar<0>(5); }
VP_HARNESS(num_colon) { readVar<0>(6); }
VP_HARNESS(num_coca) { readVar<0>(7); }
VP_HARNESS(num_cocad) { readVar<0>(8); }
VP_HARNESS(num_expr) { readVar<0>(9); }
VP_HARNESS(num_cmp) { readVar<0>(10); }
VP_HARNESS(num_sub) { readVar<0>(11); }
VP_HARNESS(num_borrow) { readVar<0>(12); }
VP_HARNESS(num_cocab) { readVar<0>(13); }
VP_HARNESS(num_lsub) { readVar<0>(14); }
VP_HARNESS(num_neg) { readVar<0>(15); }
VP_HARNESS(num_not) { readVar<0>(16); }
