#include "P23.inc"
VP_HARNESS(var_dbl) { vars<double>(); }
VP_HARNESS(var_int) { vars<int>(); }
VP_HARNESS(var_lgl) { vars<bool>(); }
VP_HARNESS(mat_dbl) { mats<double>(); }
VP_HARNESS(mat_int) { mats<int>(); }
VP_HARNESS(mat_lgl) { mats<bool>(); }
VP_HARNESS(bor_dbl) { borrowed<double>(); }
VP_HARNESS(bor_int) { borrowed<int>(); }
VP_HARNESS(bor_lgl) { borrowed<bool>(); }
VP_HARNESS(temps) { temps(0, 10); }
