#include "P24.inc"
VP_HARNESS(t6_0) { run(0, 7, 6, 6); }
VP_HARNESS(t6_1) { run(8, 12, 6, 6); }
VP_HARNESS(t6_2) { run(13, 19, 6, 6); }
VP_HARNESS(t6_3) { run(20, 29, 6, 6); }
