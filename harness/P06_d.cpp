// BOUND: histories of 2 (thorough 3) operations from 26 (construct, copy, move, assign, fill, subset write, element access with any index -3..70, push_back, realloc, resize, swap, store copy, scopes, errors), two vectors, 4 initial states with lengths 0..14, double, integer and logical elements
// OUTSIDE: allocation failure; R memory; longer vectors
// ASSUME: operator new succeeds
#include "P06.inc"
VP_HARNESS(num_0) { phist<double>(0, 1); }
VP_HARNESS(num_2) { phist<double>(2, 3); }
VP_HARNESS(num_4) { phist<double>(4, 5); }
VP_HARNESS(num_6) { phist<double>(6, 7); }
VP_HARNESS(num_8) { phist<double>(8, 9); }
VP_HARNESS(num_10) { phist<double>(10, 11); }
VP_HARNESS(num_12) { phist<double>(12, 13); }
VP_HARNESS(num_14) { phist<double>(14, 15); }
VP_HARNESS(num_16) { phist<double>(16, 17); }
VP_HARNESS(num_18) { phist<double>(18, 19); }
VP_HARNESS(num_20) { phist<double>(20, 21); }
VP_HARNESS(num_22) { phist<double>(22, 23); }
VP_HARNESS(num_24) { phist<double>(24, 25); }
