#include "P22.inc"
VP_HARNESS(outer3) { trees<3>(); }
