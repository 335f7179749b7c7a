#include "P09.inc"
VP_HARNESS(bor_all) { writeVar<3>(0); }
VP_HARNESS(bor_int) { writeVar<3>(1); }
VP_HARNESS(bor_dbl) { writeVar<3>(2); }
VP_HARNESS(bor_vint) { writeVar<3>(3); }
VP_HARNESS(bor_vdbl) { writeVar<3>(4); }
VP_HARNESS(bor_vlgl) { writeVar<3>(5); }
VP_HARNESS(bor_colon) { writeVar<3>(6); }
VP_HARNESS(bor_coca) { writeVar<3>(7); }
VP_HARNESS(bor_cmp) { writeVar<3>(10); }
VP_HARNESS(bor_cocab) { writeVar<3>(13); }
