#include "P22.inc"
VP_HARNESS(outer8) { trees<8>(); }
