#include "P22.inc"
VP_HARNESS(outer15) { trees<15>(); }
