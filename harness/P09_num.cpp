#include "P09.inc"
VP_HARNESS(num_all) { writeVar<0>(0); }
VP_HARNESS(num_int) { writeVar<0>(1); }
VP_HARNESS(num_dbl) { writeVar<0>(2); }
VP_HARNESS(num_vint) { writeVar<0>(3); }
VP_HARNESS(num_vdbl) { writeVar<0>(4); }
VP_HARNESS(num_vlgl) { writeVar<0>(5); }
VP_HARNESS(num_colon) { writeVar<0>(6); }
VP_HARNESS(num_coca) { writeVar<0>(7); }
VP_HARNESS(num_cocad) { writeVar<0>(8); }
VP_HARNESS(num_expr) { writeVar<0>(9); }
VP_HARNESS(num_cmp) { writeVar<0>(10); }
VP_HARNESS(num_sub) { writeVar<0>(11); }
VP_HARNESS(num_borrow) { writeVar<0>(12); }
VP_HARNESS(num_cocab) { writeVar<0>(13); }
VP_HARNESS(num_lsub) { writeVar<0>(14); }
VP_HARNESS(num_neg) { writeVar<0>(15); }
VP_HARNESS(num_not) { writeVar<0>(16); }
