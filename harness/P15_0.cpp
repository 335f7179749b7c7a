#include "P15.inc"
VP_HARNESS(first_0) { two<1u << 0, ~0u>(); }
VP_HARNESS(single_0) { single<1u << 0>(); }
