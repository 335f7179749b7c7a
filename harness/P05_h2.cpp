#include "P05.inc"
VP_HARNESS(hist_16) { hist(16); }
VP_HARNESS(hist_17) { hist(17); }
VP_HARNESS(hist_18) { hist(18); }
VP_HARNESS(hist_19) { hist(19); }
VP_HARNESS(hist_20) { hist(20); }
VP_HARNESS(hist_21) { hist(21); }
