#include "P22.inc"
VP_HARNESS(outer5) { trees<5>(); }
