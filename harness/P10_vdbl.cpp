#include "P10.inc"
VP_HARNESS(vdbl_all) { READ(4, 0); }
VP_HARNESS(vdbl_int) { READ(4, 1); }
VP_HARNESS(vdbl_dbl) { READ(4, 2); }
VP_HARNESS(vdbl_vint) { READ(4, 3); }
VP_HARNESS(vdbl_vdbl) { READ(4, 4); }
VP_HARNESS(vdbl_vlgl) { READ(4, 5); }
