#include "P22.inc"
VP_HARNESS(outer6) { trees<6>(); }
