#include "P10.inc"
VP_HARNESS(dbl_all) { READ(2, 0); }
VP_HARNESS(dbl_int) { READ(2, 1); }
VP_HARNESS(dbl_dbl) { READ(2, 2); }
VP_HARNESS(dbl_vint) { READ(2, 3); }
VP_HARNESS(dbl_vdbl) { READ(2, 4); }
VP_HARNESS(dbl_vlgl) { READ(2, 5); }
