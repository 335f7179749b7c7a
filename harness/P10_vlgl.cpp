#include "P10.inc"
VP_HARNESS(vlgl_all) { READ(5, 0); }
VP_HARNESS(vlgl_int) { READ(5, 1); }
VP_HARNESS(vlgl_dbl) { READ(5, 2); }
VP_HARNESS(vlgl_vint) { READ(5, 3); }
VP_HARNESS(vlgl_vdbl) { READ(5, 4); }
VP_HARNESS(vlgl_vlgl) { READ(5, 5); }
