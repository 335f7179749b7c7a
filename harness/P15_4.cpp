#include "P15.inc"
VP_HARNESS(first_4) { two<1u << 4, ~0u>(); }
VP_HARNESS(single_4) { single<1u << 4>(); }
