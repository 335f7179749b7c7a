#include "P24.inc"
VP_HARNESS(t2_0) { run(0, 7, 2, 2); }
VP_HARNESS(t2_1) { run(8, 12, 2, 2); }
VP_HARNESS(t2_2) { run(13, 19, 2, 2); }
VP_HARNESS(t2_3) { run(20, 29, 2, 2); }
