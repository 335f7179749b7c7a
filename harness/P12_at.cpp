#include "P12.inc"
template <typename T> static void vec() { int n = vp_pick(vp_int(1, NMAX)); Vec<T> v(SI{n}); T d[NMAX]; for (int i = 0; i < n; i++) { d[i] = anyT<T>(); v[i] = d[i]; } ones(v, d, n); }
template <typename T> static void mat(bool lin) { int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)); Vec<T> m; m = matrix(vector_numeric(r * c), int(r), int(c)); T d[MC]; for (int i = 0; i < r * c; i++) { d[i] = anyT<T>(); m[i] = d[i]; }
  if (lin) ones(m, d, r * c); else cells(m, d, r, c); }
VP_HARNESS(vec_dbl) { vec<double>(); }
VP_HARNESS(vec_int) { vec<int>(); }
VP_HARNESS(vec_lgl) { vec<bool>(); }
VP_HARNESS(mat_dbl) { mat<double>(false); }
VP_HARNESS(mat_int) { mat<int>(false); }
VP_HARNESS(mat_lgl) { mat<bool>(false); }
VP_HARNESS(mat_linear) { mat<double>(true); }
VP_HARNESS(bor_vec) { int n = vp_pick(vp_int(1, NMAX)); double raw[NMAX + 1], d[NMAX]; for (int i = 0; i < n; i++) raw[i] = d[i] = vp_double(); raw[n] = 7; { Vec<double, Borrow<double>> v(raw, (std::size_t)n); ones(v, d, n); } for (int i = 0; i < n; i++) vp_eq(raw[i], d[i], "at.borrowed"); vp_eq(raw[n], 7.0, "at.behind"); }
VP_HARNESS(bor_mat) { int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)); double raw[MC + 1], d[MC]; for (int i = 0; i < r * c; i++) raw[i] = d[i] = vp_double(); raw[r * c] = 7; { Vec<double, Borrow<double>> m(raw, r, c); cells(m, d, r, c); } for (int i = 0; i < r * c; i++) vp_eq(raw[i], d[i], "at.borrowed"); vp_eq(raw[r * c], 7.0, "at.behind"); }
VP_HARNESS(not_matrix) {
  int n = vp_pick(vp_int(1, NMAX)); sexp v = vector_numeric(n); double d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; }
  int i = vp_int(-3, n + 3), j = vp_int(-3, n + 3); double fi = vp_frac(-3, n + 3), fj = vp_frac(-3, n + 3); double w = vp_double(), g = 0;
  vp_check(vp_throws([&] { g = at(v, i, j); }), "atnomat.int"); vp_check(vp_throws([&] { g = at(v, fi, fj); }), "atnomat.dbl"); vp_check(vp_throws([&] { g = at(v, i, fj); }), "atnomat.int_dbl"); vp_check(vp_throws([&] { g = at(v, fi, j); }), "atnomat.dbl_int");
  vp_check(vp_throws([&] { at(v, i, j) = w; }), "atnomat.wint"); vp_check(vp_throws([&] { at(v, fi, fj) = w; }), "atnomat.wdbl"); vp_check(vp_throws([&] { at(v, i, fj) = w; }), "atnomat.wint_dbl"); vp_check(vp_throws([&] { at(v, fi, j) = w; }), "atnomat.wdbl_int");
  sexp m; m = matrix(vector_numeric(n), 1, int(n)); m = v; vp_check(vp_throws([&] { g = at(m, 1, 1); }), "atnomat.dropped"); // no longer a matrix
  vp_eqi((long)v.size(), n, "atnomat.size"); vp_eqi(v.im(), 0, "atnomat.matrix"); for (int k = 0; k < n; k++) vp_eq(v[k], d[k], "atnomat.elem"); (void)g;
}
VP_HARNESS(history) { // after resizing assignments the bounds follow the variable
  int n = vp_pick(vp_int(1, NMAX)), q = vp_pick(vp_int(1, NMAX)); sexp v = vector_numeric(n), u = vector_numeric(q); double d[NMAX]; for (int i = 0; i < q; i++) { d[i] = vp_double(); u[i] = d[i]; }
  v = u; int i = vp_int(-3, NMAX + 3); one(v, d, q, i, i);
  double s = vp_double(); v = s; d[0] = s; int j = vp_int(-3, NMAX + 3); one(v, d, 1, j, j);
  v = coca(s, u, s); double e[NMAX + 2]; e[0] = s; for (int k = 0; k < q; k++) e[k + 1] = u[k]; e[q + 1] = s; int k = vp_int(-3, NMAX + 3); one(v, e, q + 2, k, k);
}
VP_HARNESS(mat_history) { // reshaped matrices
  double d[6]; sexp m; m = matrix(vector_numeric(6), 2, 3); for (int i = 0; i < 6; i++) { d[i] = vp_double(); m[i] = d[i]; }
  m = matrix(rep(m, 1), 3, 2); int i = vp_int(-3, 6), j = vp_int(-3, 6); cell(m, d, 3, 2, i, j, i, j);
  m = m(colon(1, 2), true); double e[4] = {d[0], d[1], d[3], d[4]}; int k = vp_int(-3, 6), l = vp_int(-3, 6); cell(m, e, 2, 2, k, l, k, l);
}
VP_HARNESS(compound) { // reading and writing in one statement
  int n = NMAX; sexp v = vector_numeric(n); double d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; }
  int a = vp_int(1, n), b = vp_int(1, n); double s = vp_double();
  at(v, a) = at(v, b) + s; { double x = d[b - 1] + s; d[a - 1] = x; }
  sexp q; q = v * at(v, a); { double f = d[a - 1]; for (int i = 0; i < n; i++) vp_eq(q[i], d[i] * f, "atc.expr"); }
  v[0] = at(v, a); d[0] = d[a - 1]; for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "atc.elem");
}
