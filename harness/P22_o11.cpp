#include "P22.inc"
VP_HARNESS(outer11) { trees<11>(); }
