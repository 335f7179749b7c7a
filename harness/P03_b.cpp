#include "P03.inc"
UN(f_tangens, tangens, std::tan)
UN(f_tangensh, tangensh, std::tanh)
UN(f_atangens, atangens, std::atan)
UN(f_ln, ln, std::log)
UN(f_sqroot, sqroot, std::sqrt)
UN(f_exp, etr::exp, std::exp)
