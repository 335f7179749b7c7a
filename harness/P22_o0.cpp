#include "P22.inc"
VP_HARNESS(outer0) { trees<0>(); }
