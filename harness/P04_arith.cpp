// BOUND: matrices 1x1 .. 3x3 (thorough 5x5), vectors of length 1..3 (5), all doubles; 11 binary operators x 15 operand combinations (variables, scalars, integer, expressions, matrix subsets, logical/integer targets)
// OUTSIDE: larger shapes
#include "P04.inc"
VP_HARNESS(m_add) { bin([](const auto &x, const auto &y) { return x + y; }); }
VP_HARNESS(m_sub) { bin([](const auto &x, const auto &y) { return x - y; }); }
VP_HARNESS(m_mul) { bin([](const auto &x, const auto &y) { return x * y; }); }
VP_HARNESS(m_div) { bin([](const auto &x, const auto &y) { return x / y; }); }
VP_HARNESS(m_pow) { bin([](const auto &x, const auto &y) { if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(x)>> && std::is_arithmetic_v<std::remove_cvref_t<decltype(y)>>) return std::pow(x, y); else return x ^ y; }); }
