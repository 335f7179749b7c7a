#include "P22.inc"
VP_HARNESS(outer7) { trees<7>(); }
