#include "P05.inc"
VP_HARNESS(hist_0) { hist(0); }
VP_HARNESS(hist_1) { hist(1); }
VP_HARNESS(hist_2) { hist(2); }
VP_HARNESS(hist_3) { hist(3); }
VP_HARNESS(hist_4) { hist(4); }
VP_HARNESS(hist_5) { hist(5); }
VP_HARNESS(hist_6) { hist(6); }
VP_HARNESS(hist_7) { hist(7); }
