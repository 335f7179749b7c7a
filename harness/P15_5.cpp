#include "P15.inc"
VP_HARNESS(first_5) { two<1u << 5, ~0u>(); }
VP_HARNESS(single_5) { single<1u << 5>(); }
