#include "P09.inc"
VP_HARNESS(lgl_all) { writeVar<2>(0); }
VP_HARNESS(lgl_int) { writeVar<2>(1); }
VP_HARNESS(lgl_dbl) { writeVar<2>(2); }
VP_HARNESS(lgl_vint) { writeVar<2>(3); }
VP_HARNESS(lgl_vdbl) { writeVar<2>(4); }
VP_HARNESS(lgl_vlgl) { writeVar<2>(5); }
VP_HARNESS(lgl_colon) { writeVar<2>(6); }
VP_HARNESS(lgl_coca) { writeVar<2>(7); }
VP_HARNESS(lgl_cmp) { writeVar<2>(10); }
VP_HARNESS(lgl_cocab) { writeVar<2>(13); }
