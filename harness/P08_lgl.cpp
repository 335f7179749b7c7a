#include "P08.inc"
VP_HARNESS(lgl_all) { readVar<2>(0); }
VP_HARNESS(lgl_int) { readVar<2>(1); }
VP_HARNESS(lgl_dbl) { readVar<2>(2); }
VP_HARNESS(lgl_vint) { readVar<2>(3); }
VP_HARNESS(lgl_vdbl) { readVar<2>(4); }
VP_HARNESS(lgl_vlgl) { readVar<2>(5); }
VP_HARNESS(lgl_colon) { readVar<2>(6); }
VP_HARNESS(lgl_coca) { readVar<2>(7); }
VP_HARNESS(lgl_cocad) { readVar<2>(8); }
VP_HARNESS(lgl_expr) { readVar<2>(9); }
VP_HARNESS(lgl_cmp) { readVar<2>(10); }
VP_HARNESS(lgl_sub) { readVar<2>(11); }
VP_HARNESS(lgl_borrow) { readVar<2>(12); }
VP_HARNESS(lgl_cocab) { readVar<2>(13); }
VP_HARNESS(lgl_lsub) { readVar<2>(14); }
VP_HARNESS(lgl_neg) { readVar<2>(15); }
VP_HARNESS(lgl_not) { readVar<2>(16); }
