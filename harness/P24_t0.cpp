#include "P24.inc"
VP_HARNESS(t0_0) { run(0, 0, 0, 0); }
VP_HARNESS(t0_1) { run(1, 1, 0, 0); }
VP_HARNESS(t0_2) { run(2, 3, 0, 0); }
VP_HARNESS(t0_3) { run(4, 7, 0, 0); }
VP_HARNESS(t0_4) { run(8, 10, 0, 0); }
VP_HARNESS(t0_5) { run(11, 12, 0, 0); }
VP_HARNESS(t0_6) { run(13, 19, 0, 0); }
VP_HARNESS(t0_7) { run(20, 24, 0, 0); }
VP_HARNESS(t0_8) { run(25, 26, 0, 0); }
VP_HARNESS(t0_9) { run(27, 29, 0, 0); }
VP_HARNESS(left_30) { run(30, 30, 0, 0); }
VP_HARNESS(left_31) { run(31, 31, 0, 0); }
VP_HARNESS(left_32) { run(32, 32, 0, 0); }
VP_HARNESS(left_33) { run(33, 33, 0, 0); }
VP_HARNESS(left_34) { run(34, 34, 0, 0); }
VP_HARNESS(left_35) { run(35, 35, 0, 0); }
