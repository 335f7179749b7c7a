#include "P15.inc"
VP_HARNESS(first_6) { two<1u << 6, ~0u>(); }
VP_HARNESS(single_6) { single<1u << 6>(); }
