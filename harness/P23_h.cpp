#include "P23.inc"
#ifdef VP_THOROUGH
constexpr int ST = 3;
#else
constexpr int ST = 2;
#endif
VP_HARNESS(hist_0) { hist<ST>(0, 2); }
VP_HARNESS(hist_1) { hist<ST>(3, 4); }
VP_HARNESS(hist_2) { hist<ST>(5, 5); }
VP_HARNESS(hist_3) { hist<ST>(6, 8); }
VP_HARNESS(hist_4) { hist<ST>(9, 10); }
VP_HARNESS(hist_5) { hist<ST>(11, 13); }
VP_HARNESS(hist_6) { hist<ST>(14, 16); }
VP_HARNESS(hist_7) { hist<ST>(17, 19); }
VP_HARNESS(hist_8) { hist<ST>(20, 21); }
