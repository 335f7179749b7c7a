#include "P23.inc"
VP_HARNESS(sub_dbl_a) { subsets<double>(0, 4); }
VP_HARNESS(sub_dbl_b) { subsets<double>(5, 9); }
VP_HARNESS(sub_dbl_c) { subsets<double>(10, 16); }
VP_HARNESS(sub_int) { subsets<int>(0, 16); }
VP_HARNESS(sub_lgl) { subsets<bool>(0, 16); }
