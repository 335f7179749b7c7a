#include "P10.inc"
VP_HARNESS(all_all) { READ(0, 0); }
VP_HARNESS(all_int) { READ(0, 1); }
VP_HARNESS(all_dbl) { READ(0, 2); }
VP_HARNESS(all_vint) { READ(0, 3); }
VP_HARNESS(all_vdbl) { READ(0, 4); }
VP_HARNESS(all_vlgl) { READ(0, 5); }
