#include "P06.inc"
VP_HARNESS(lgl_0) { phist<bool>(0, 3); }
VP_HARNESS(lgl_4) { phist<bool>(4, 7); }
VP_HARNESS(lgl_8) { phist<bool>(8, 11); }
VP_HARNESS(lgl_12) { phist<bool>(12, 15); }
VP_HARNESS(lgl_16) { phist<bool>(16, 19); }
VP_HARNESS(lgl_20) { phist<bool>(20, 23); }
VP_HARNESS(lgl_24) { phist<bool>(24, 25); }
