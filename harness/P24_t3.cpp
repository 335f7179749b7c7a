#include "P24.inc"
VP_HARNESS(t3_0) { run(0, 7, 3, 3); }
VP_HARNESS(t3_1) { run(8, 12, 3, 3); }
VP_HARNESS(t3_2) { run(13, 19, 3, 3); }
VP_HARNESS(t3_3) { run(20, 29, 3, 3); }
