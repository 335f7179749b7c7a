#include "P15.inc"
VP_HARNESS(first_8) { two<1u << 8, ~0u>(); }
VP_HARNESS(single_8) { single<1u << 8>(); }
