#include "P22.inc"
VP_HARNESS(outer13) { trees<13>(); }
