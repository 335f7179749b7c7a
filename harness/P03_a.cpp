// BOUND: vectors of length 1..3 (thorough 1..5), matrices up to 3x3 (5x5), all doubles; variable, scalar, temporary, subset, borrowed, expression, negation, matrix, matrix expression; function applied to itself and inside an expression
// OUTSIDE: functions of integer or logical vectors; accuracy of the C math library
// ASSUME: the C math functions are pure
#include "P03.inc"
static double neg(double x) { return -x; }
UN(f_sinus, sinus, std::sin)
UN(f_sinush, sinush, std::sinh)
UN(f_asinus, asinus, std::asin)
UN(f_cosinus, cosinus, std::cos)
UN(f_cosinush, cosinush, std::cosh)
UN(f_acosinus, acosinus, std::acos)
