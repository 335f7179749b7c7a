#include "P22.inc"
VP_HARNESS(outer10) { trees<10>(); }
