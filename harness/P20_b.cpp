#include "P20.inc"
VP_HARNESS(quotients) { one<DIV>(1, 10, false, 1); }
VP_HARNESS(quotients_init) { one<DIV>(1, 10, true, 1); }
VP_HARNESS(comparisons) { one<CMP>(-10, 10, false, 1); }
VP_HARNESS(comparisons_init) { one<CMP>(-10, 10, true, 1); }
