#include "P15.inc"
VP_HARNESS(first_2) { two<1u << 2, ~0u>(); }
VP_HARNESS(single_2) { single<1u << 2>(); }
