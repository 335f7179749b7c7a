#include "P22.inc"
VP_HARNESS(outer4) { trees<4>(); }
