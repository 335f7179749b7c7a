#include "P13.inc"
// colon with a slot: every endpoint form
using AV = etr::AllVars<2, 0, 0, 3>;
template <int I> using DVar = etr::Vec<double, etr::VarPointer<AV, I, 0>, etr::VariableTypeTrait>;
template <typename K> static void seq(AV &av, const K &k, double a, int n, bool up) {
  vp_eqi((long)k.size(), n, "const.colon_size"); for (int i = 0; i < n; i++) vp_eq(k.d[i], up ? a + (double)i : a - (double)i, "const.colon");
  DVar<1> c(av); c = k; auto d = etr::get_derivs(c); vp_eqi((long)c.size(), n, "const.colon_assigned"); for (int i = 0; i < n; i++) { vp_eq(c.d[i], up ? a + (double)i : a - (double)i, "const.colon_assigned"); vp_eq(d[i], 0, "const.colon_assigned"); }
}
template <unsigned MA, unsigned MB, typename A, typename B> static void wholeC() {
  AV av(0, 0); if (vp_pick(vp_int(0, 1))) etr::coca<1>(av, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0);
  int ka = vp_pick(vp_int(0, ENDS - 1)), kb = vp_pick(vp_int(0, ENDS - 1));
  int a = vp_int(-1000000000, 1000000000), k = vp_pick(vp_int(-2, 2)); int b = a + k;
  endpoint<MA>(ka, A(a), [&](auto &&x) { endpoint<MB>(kb, B(b), [&](auto &&y) { auto q = etr::colon<1>(av, x, y); seq(av, q, a, (k < 0 ? -k : k) + 1, k >= 0); }); });
}
VP_HARNESS(colon_ii) { wholeC<0x1df, 0x1df, int, int>(); }
VP_HARNESS(colon_dd) { wholeC<0x1ff, 0x1ff, double, double>(); }
VP_HARNESS(colon_id) { wholeC<0x1df, 0x1ff, int, double>(); }
VP_HARNESS(colon_di) { wholeC<0x1ff, 0x1df, double, int>(); }
VP_HARNESS(colon_int_limits) { // next to the largest and smallest int
  AV av(0, 0); int k = vp_pick(vp_int(0, 3)); int hi = 2147483647 - vp_pick(vp_int(0, 1)), lo = -2147483647 - vp_pick(vp_int(0, 1));
  { auto q = etr::colon<1>(av, hi - k, hi); seq(av, q, (double)hi - k, k + 1, true); }
  { auto q = etr::colon<1>(av, lo + k, lo); seq(av, q, (double)lo + k, k + 1, k == 0); }
}
VP_HARNESS(colon_quarters) { AV av(0, 0); int p = vp_pick(vp_int(-6, 6)), q = vp_pick(vp_int(-6, 6)); int n = (q < p ? p - q : q - p) / 4 + 1; auto r = etr::colon<1>(av, p * 0.25, q * 0.25); seq(av, r, p * 0.25, n, p < q); }
VP_HARNESS(colon_double) { // any two doubles
  AV av(0, 0); double a = vp_double(), b = vp_double(); bool lt = vp_pick(a < b); double l; if (lt) l = b - a + 1; else l = a - b + 1;
  vp_assume((l >= 1) & (l < 4)); int n = vp_pick((int)l);
  auto r = etr::colon<1>(av, a, b); vp_eqi((long)r.size(), n, "const.colon_any"); for (int i = 0; i < n; i++) { double u = a + (double)i, d = a - (double)i; vp_eq(r.d[i], lt ? u : d, "const.colon_any"); }
}
