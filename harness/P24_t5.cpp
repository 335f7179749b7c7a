#include "P24.inc"
VP_HARNESS(t5_0) { run(0, 7, 5, 5); }
VP_HARNESS(t5_1) { run(8, 12, 5, 5); }
VP_HARNESS(t5_2) { run(13, 19, 5, 5); }
VP_HARNESS(t5_3) { run(20, 29, 5, 5); }
