#include "P09.inc"
VP_HARNESS(int_all) { writeVar<1>(0); }
VP_HARNESS(int_int) { writeVar<1>(1); }
VP_HARNESS(int_dbl) { writeVar<1>(2); }
VP_HARNESS(int_vint) { writeVar<1>(3); }
VP_HARNESS(int_vdbl) { writeVar<1>(4); }
VP_HARNESS(int_vlgl) { writeVar<1>(5); }
VP_HARNESS(int_colon) { writeVar<1>(6); }
VP_HARNESS(int_coca) { writeVar<1>(7); }
VP_HARNESS(int_cmp) { writeVar<1>(10); }
VP_HARNESS(int_cocab) { writeVar<1>(13); }
