#include "P10.inc"
VP_HARNESS(vint_all) { READ(3, 0); }
VP_HARNESS(vint_int) { READ(3, 1); }
VP_HARNESS(vint_dbl) { READ(3, 2); }
VP_HARNESS(vint_vint) { READ(3, 3); }
VP_HARNESS(vint_vdbl) { READ(3, 4); }
VP_HARNESS(vint_vlgl) { READ(3, 5); }
