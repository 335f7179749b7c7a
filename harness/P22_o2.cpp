#include "P22.inc"
VP_HARNESS(outer2) { trees<2>(); }
