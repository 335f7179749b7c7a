#include "P15.inc"
VP_HARNESS(first_7) { two<1u << 7, ~0u>(); }
VP_HARNESS(single_7) { single<1u << 7>(); }
