// BOUND: cells of temporaries, operations, comparisons and subsets: matrices of 1..3 rows and columns, positions as for variables
// OUTSIDE: at with a single position of anything that is not a variable (the test suite fixes it as zero based)
#include "P12.inc"
template <int K> static void val() {
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)), n = r * c; double d[MC], w[MC], x = vp_double();
  sexp m; m = matrix(vector_numeric(int(n)), int(r), int(c)); for (int i = 0; i < n; i++) { d[i] = vp_double(); m[i] = d[i]; }
  if constexpr (K == 0) { rcells(matrix(coca(subset(m, true)), int(r), int(c)), d, r, c); }
  if constexpr (K == 1) { for (int i = 0; i < n; i++) w[i] = d[i] + x; rcells(m + x, w, r, c); }
  if constexpr (K == 2) { for (int i = 0; i < n; i++) w[i] = -d[i]; rcells(-m, w, r, c); }
  if constexpr (K == 3) { bool b[MC]; for (int i = 0; i < n; i++) b[i] = d[i] < x; rcells(m < x, b, r, c); }
  if constexpr (K == 4) { rcells(subset(m, true, true), d, r, c); }
  if constexpr (K == 5) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w[j * r + i] = d[(c - 1 - j) * r + r - 1 - i]; rcells(subset(m, colon(r, 1), colon(c, 1)), w, r, c); }
  if constexpr (K == 6) { for (int i = 0; i < n; i++) w[i] = -(x - d[i]); rcells(-(x - m), w, r, c); }
  for (int i = 0; i < n; i++) vp_eq(m[i], d[i], "at.source");
}
VP_HARNESS(val_tmp) { val<0>(); }
VP_HARNESS(val_sum) { val<1>(); }
VP_HARNESS(val_neg) { val<2>(); }
VP_HARNESS(val_cmp) { val<3>(); }
VP_HARNESS(val_sub) { val<4>(); }
VP_HARNESS(val_subrev) { val<5>(); }
VP_HARNESS(val_expr) { val<6>(); }
VP_HARNESS(val_int) { int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)), n = r * c; int d[MC], w[MC];
  Vec<int> m; m = matrix(vector_integer(int(n)), int(r), int(c)); for (int i = 0; i < n; i++) { d[i] = vp_int(-30000, 30000); m[i] = d[i]; w[i] = d[i] * 2; }
  rcells(m * 2, w, r, c); }
VP_HARNESS(val_nomat) { // two positions of something that is not a matrix
  int n = vp_pick(vp_int(1, NMAX)); sexp v = vector_numeric(n); for (int i = 0; i < n; i++) v[i] = vp_double();
  int i = vp_int(-3, n + 3), j = vp_int(-3, n + 3); double x = vp_frac(-3, n + 3), y = vp_frac(-3, n + 3), g = 0;
  vp_check(vp_throws([&] { g = at(v + 1.0, i, j); }), "atval.nomat"); vp_check(vp_throws([&] { g = at(-v, x, j); }), "atval.nomat2");
  vp_check(vp_throws([&] { g = at(coca(v), i, y); }), "atval.nomat3"); vp_check(vp_throws([&] { g = at(subset(v, true), x, y); }), "atval.nomat4"); (void)g;
}
