#include "P15.inc"
VP_HARNESS(first_1) { two<1u << 1, ~0u>(); }
VP_HARNESS(single_1) { single<1u << 1>(); }
