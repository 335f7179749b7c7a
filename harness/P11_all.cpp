#include "P11.inc"
VP_HARNESS(all_all) { WRITE(0, 0); }
VP_HARNESS(all_int) { WRITE(0, 1); }
VP_HARNESS(all_dbl) { WRITE(0, 2); }
VP_HARNESS(all_vint) { WRITE(0, 3); }
VP_HARNESS(all_vdbl) { WRITE(0, 4); }
VP_HARNESS(all_vlgl) { WRITE(0, 5); }
