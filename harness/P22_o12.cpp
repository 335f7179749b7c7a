#include "P22.inc"
VP_HARNESS(outer12) { trees<12>(); }
