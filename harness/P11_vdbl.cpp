#include "P11.inc"
VP_HARNESS(vdbl_all) { WRITE(4, 0); }
VP_HARNESS(vdbl_int) { WRITE(4, 1); }
VP_HARNESS(vdbl_dbl) { WRITE(4, 2); }
VP_HARNESS(vdbl_vint) { WRITE(4, 3); }
VP_HARNESS(vdbl_vdbl) { WRITE(4, 4); }
VP_HARNESS(vdbl_vlgl) { WRITE(4, 5); }
