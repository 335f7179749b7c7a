#include "P24.inc"
VP_HARNESS(t4_0) { run(0, 7, 4, 4); }
VP_HARNESS(t4_1) { run(8, 12, 4, 4); }
VP_HARNESS(t4_2) { run(13, 19, 4, 4); }
VP_HARNESS(t4_3) { run(20, 29, 4, 4); }
