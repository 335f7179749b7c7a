#include "P11.inc"
VP_HARNESS(int_all) { WRITE(1, 0); }
VP_HARNESS(int_int) { WRITE(1, 1); }
VP_HARNESS(int_dbl) { WRITE(1, 2); }
VP_HARNESS(int_vint) { WRITE(1, 3); }
VP_HARNESS(int_vdbl) { WRITE(1, 4); }
VP_HARNESS(int_vlgl) { WRITE(1, 5); }
