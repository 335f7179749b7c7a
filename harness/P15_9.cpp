#include "P15.inc"
VP_HARNESS(first_9) { two<1u << 9, ~0u>(); }
VP_HARNESS(single_9) { single<1u << 9>(); }
