#include "P24.inc"
VP_HARNESS(dir0) { run(36, 39, 2, 2); }
VP_HARNESS(dir1) { run(40, 43, 2, 2); }
VP_HARNESS(dir2) { run(44, 47, 2, 2); }
