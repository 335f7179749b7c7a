#include "P24.inc"
VP_HARNESS(t1_0) { run(0, 0, 1, 1); }
VP_HARNESS(t1_1) { run(1, 1, 1, 1); }
VP_HARNESS(t1_2) { run(2, 3, 1, 1); }
VP_HARNESS(t1_3) { run(4, 7, 1, 1); }
VP_HARNESS(t1_4) { run(8, 10, 1, 1); }
VP_HARNESS(t1_5) { run(11, 12, 1, 1); }
VP_HARNESS(t1_6) { run(13, 19, 1, 1); }
VP_HARNESS(t1_7) { run(20, 24, 1, 1); }
VP_HARNESS(t1_8) { run(25, 26, 1, 1); }
VP_HARNESS(t1_9) { run(27, 29, 1, 1); }
