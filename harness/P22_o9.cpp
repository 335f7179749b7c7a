#include "P22.inc"
VP_HARNESS(outer9) { trees<9>(); }
