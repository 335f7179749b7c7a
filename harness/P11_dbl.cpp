#include "P11.inc"
VP_HARNESS(dbl_all) { WRITE(2, 0); }
VP_HARNESS(dbl_int) { WRITE(2, 1); }
VP_HARNESS(dbl_dbl) { WRITE(2, 2); }
VP_HARNESS(dbl_vint) { WRITE(2, 3); }
VP_HARNESS(dbl_vdbl) { WRITE(2, 4); }
VP_HARNESS(dbl_vlgl) { WRITE(2, 5); }
