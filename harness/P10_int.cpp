#include "P10.inc"
VP_HARNESS(int_all) { READ(1, 0); }
VP_HARNESS(int_int) { READ(1, 1); }
VP_HARNESS(int_dbl) { READ(1, 2); }
VP_HARNESS(int_vint) { READ(1, 3); }
VP_HARNESS(int_vdbl) { READ(1, 4); }
VP_HARNESS(int_vlgl) { READ(1, 5); }
