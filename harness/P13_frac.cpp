#include "P13.inc"
// Fractional endpoints.
// Quarters are exact in floating point: the number of elements and every element are compared with exact integers.
VP_HARNESS(quarter) {
  int p = vp_pick(vp_int(-6, 6)), q = vp_pick(vp_int(-6, 6)); double a = p * 0.25, b = q * 0.25; int dist = q < p ? p - q : q - p; int n = dist / 4 + 1;
  auto s = colon(a, b); expectSeq(s, a, n, p < q, "colon.quarter");
  sexp v; v = coca(a); sexp w; w = coca(b); expectSeq(colon(v, w), a, n, p < q, "colon.quarter_vec"); expectSeq(colon(v + 0.0, w), a, n, p < q, "colon.quarter_expr");
}
VP_HARNESS(quarter_int) {
  int p = vp_pick(vp_int(-6, 6)), q = vp_pick(vp_int(-2, 2)); double a = p * 0.25; int p2 = 4 * q; int dist = p2 < p ? p - p2 : p2 - p; int n = dist / 4 + 1;
  expectSeq(colon(a, q), a, n, p < p2, "colon.quarter_int"); expectSeq(colon(q, a), q, n, p2 < p, "colon.int_quarter");
}
VP_HARNESS(any_double) { // any endpoints whose distance is below 3
  double a = vp_double(), b = vp_double(); bool lt = vp_pick(a < b); double l; if (lt) l = b - a + 1; else l = a - b + 1;
  vp_assume((l >= 1) & (l < 4)); int n = vp_pick((int)l);
  auto s = colon(a, b); vp_eqi((long)s.size(), n, "colon.any_size"); bool up = a < b; for (int i = 0; i < n; i++) { double u = a + (double)i, d = a - (double)i; vp_eq(s[i], up ? u : d, "colon.any"); }
  expectSeq(s, a, n, up, "colon.any_stored");
}
