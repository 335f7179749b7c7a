#include "P22.inc"
VP_HARNESS(outer1) { trees<1>(); }
