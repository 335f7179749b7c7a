#include "P11.inc"
VP_HARNESS(vint_all) { WRITE(3, 0); }
VP_HARNESS(vint_int) { WRITE(3, 1); }
VP_HARNESS(vint_dbl) { WRITE(3, 2); }
VP_HARNESS(vint_vint) { WRITE(3, 3); }
VP_HARNESS(vint_vdbl) { WRITE(3, 4); }
VP_HARNESS(vint_vlgl) { WRITE(3, 5); }
