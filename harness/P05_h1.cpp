#include "P05.inc"
VP_HARNESS(hist_8) { hist(8); }
VP_HARNESS(hist_9) { hist(9); }
VP_HARNESS(hist_10) { hist(10); }
VP_HARNESS(hist_11) { hist(11); }
VP_HARNESS(hist_12) { hist(12); }
VP_HARNESS(hist_13) { hist(13); }
VP_HARNESS(hist_14) { hist(14); }
VP_HARNESS(hist_15) { hist(15); }
