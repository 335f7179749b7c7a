#include "P15.inc"
VP_HARNESS(first_3) { two<1u << 3, ~0u>(); }
VP_HARNESS(single_3) { single<1u << 3>(); }
