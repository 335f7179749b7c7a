#include "P22.inc"
VP_HARNESS(outer14) { trees<14>(); }
