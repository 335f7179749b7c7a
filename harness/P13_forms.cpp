#include "P13.inc"
// Fractional endpoints (quarters, exact in floating point) in every form, mixed with integer endpoints.
template <bool AI, bool BI> static void forms(int ka) {
  static const int Q[] = {-5, -2, 0, 1, 3, 4};
  int p = Q[vp_pick(vp_int(0, 5))], q = Q[vp_pick(vp_int(0, 5))];
  if constexpr (AI) p = 4 * (p / 3);
  if constexpr (BI) q = 4 * (q / 3);
  using A = std::conditional_t<AI, int, double>; using B = std::conditional_t<BI, int, double>;
  int n = (q < p ? p - q : q - p) / 4 + 1, kb = vp_pick(vp_int(0, ENDS - 1));
  A a; B b; if constexpr (AI) a = p / 4; else a = p * 0.25; if constexpr (BI) b = q / 4; else b = q * 0.25;
  endpoint<AI ? 0x1df : ~0u>(ka, a, [&](auto &&x) { endpoint<BI ? 0x1df : ~0u>(kb, b, [&](auto &&y) { expectSeq(colon(x, y), p * 0.25, n, p < q, "colon.form"); }); });
}
#define F(n, ...) VP_HARNESS(forms_##n) { forms<__VA_ARGS__>(vp_pick(vp_int(0, ENDS - 1))); }
F(dd, false, false)
F(di, false, true)
F(id, true, false)
