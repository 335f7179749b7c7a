#include "P06.inc"
VP_HARNESS(int_0) { phist<int>(0, 3); }
VP_HARNESS(int_4) { phist<int>(4, 7); }
VP_HARNESS(int_8) { phist<int>(8, 11); }
VP_HARNESS(int_12) { phist<int>(12, 15); }
VP_HARNESS(int_16) { phist<int>(16, 19); }
VP_HARNESS(int_20) { phist<int>(20, 23); }
VP_HARNESS(int_24) { phist<int>(24, 25); }
