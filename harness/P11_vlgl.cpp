#include "P11.inc"
VP_HARNESS(vlgl_all) { WRITE(5, 0); }
VP_HARNESS(vlgl_int) { WRITE(5, 1); }
VP_HARNESS(vlgl_dbl) { WRITE(5, 2); }
VP_HARNESS(vlgl_vint) { WRITE(5, 3); }
VP_HARNESS(vlgl_vdbl) { WRITE(5, 4); }
VP_HARNESS(vlgl_vlgl) { WRITE(5, 5); }
