#include "P04.inc"
VP_HARNESS(m_lt) { bin([](const auto &x, const auto &y) { return x < y; }); }
VP_HARNESS(m_le) { bin([](const auto &x, const auto &y) { return x <= y; }); }
VP_HARNESS(m_gt) { bin([](const auto &x, const auto &y) { return x > y; }); }
VP_HARNESS(m_ge) { bin([](const auto &x, const auto &y) { return x >= y; }); }
template <typename X, typename Y> constexpr bool SC = std::is_arithmetic_v<std::remove_cvref_t<X>> && std::is_arithmetic_v<std::remove_cvref_t<Y>>;
static bool eqv(double x, double y) { return (x == y) | (std::fabs(x - y) < 1E-3); }
VP_HARNESS(m_eq) { bin([](const auto &x, const auto &y) { if constexpr (SC<decltype(x), decltype(y)>) return eqv(x, y); else return x == y; }); }
VP_HARNESS(m_ne) { bin([](const auto &x, const auto &y) { if constexpr (SC<decltype(x), decltype(y)>) return !eqv(x, y); else return x != y; }); }
