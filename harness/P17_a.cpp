#include "P17.inc"
VP_HARNESS(scalars) {
  double d = vp_double(), o = d; int i = vp_int(-2147483647 - 1, 2147483647); bool b = vp_bool();
  vp_eqi(isNA(d), nan_(d), "isNA.dbl"); vp_eqi(isInf(d), inf_(d), "isInf.dbl"); vp_eqi(isNA(i), 0, "isNA.int"); vp_eqi(isInf(i), 0, "isInf.int"); vp_eqi(isNA(b), 0, "isNA.lgl"); vp_eqi(isInf(b), 0, "isInf.lgl");
  vp_eqi((long)length(d), 1, "length.dbl"); vp_eqi((long)length(i), 1, "length.int"); vp_eqi((long)length(b), 1, "length.lgl"); vp_eq(d, o, "query.arg");
  vp_check(vp_throws([&] { dim(d); }), "dim.dbl"); vp_check(vp_throws([&] { dim(i); }), "dim.int"); vp_check(vp_throws([&] { dim(b); }), "dim.lgl");
}
template <typename V> static void vec(V &v, const double *d, int n) {
  expectB(isNA(v), n, [&](int i) { return nan_(d[i]); }, "isNA.vec"); expectB(isInf(v), n, [&](int i) { return inf_(d[i]); }, "isInf.vec"); vp_eqi(length(v), n, "length.vec"); vp_check(vp_throws([&] { dim(v); }), "dim.vec");
  expectB(isNA(ro(v)), n, [&](int i) { return nan_(d[i]); }, "isNA.cvec"); expectB(isInf(ro(v)), n, [&](int i) { return inf_(d[i]); }, "isInf.cvec"); vp_eqi(length(ro(v)), n, "length.cvec"); vp_check(vp_throws([&] { dim(ro(v)); }), "dim.cvec");
  for (int i = 0; i < n; i++) vp_eq((double)v[i], d[i], "query.elem"); vp_eqi((long)v.size(), n, "query.argsize"); vp_eqi(v.im(), 0, "query.argmatrix");
}
VP_HARNESS(vec_dbl) { int n = vp_pick(vp_int(1, QN)); sexp v; v = vector_numeric(n); double d[QN]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; } vec(v, d, n); }
VP_HARNESS(vec_int) { int n = vp_pick(vp_int(1, QN)); Vec<int> v(SI{n}); double d[QN]; for (int i = 0; i < n; i++) { int q = vp_int(-30000, 30000); d[i] = q; v[i] = q; } vec(v, d, n); }
VP_HARNESS(vec_lgl) { int n = vp_pick(vp_int(1, QN)); Vec<bool> v(SI{n}); double d[QN]; for (int i = 0; i < n; i++) { bool q = vp_bool(); d[i] = q; v[i] = q; } vec(v, d, n); }
VP_HARNESS(vec_bor) { int n = vp_pick(vp_int(1, QN)); double r[QN + 1], d[QN]; for (int i = 0; i < n; i++) r[i] = d[i] = vp_double(); r[n] = 5; Vec<double, Borrow<double>> v(r, (std::size_t)n); vec(v, d, n); vp_eq(r[n], 5.0, "query.behind"); }
VP_HARNESS(expressions) {
  int n = vp_pick(vp_int(1, 3)), m = vp_pick(vp_int(1, 3)), k = n > m ? n : m; sexp a, b; a = vector_numeric(n); b = vector_numeric(m); double d[3], e[3]; for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; } for (int i = 0; i < m; i++) { e[i] = vp_double(); b[i] = e[i]; } double x = vp_double();
  expectB(isNA(a + b), k, [&](int i) { double s = d[i % n] + e[i % m]; return nan_(s); }, "isNA.sum"); expectB(isInf(a + b), k, [&](int i) { double s = d[i % n] + e[i % m]; return inf_(s); }, "isInf.sum");
  expectB(isNA(a * x), n, [&](int i) { double s = d[i] * x; return nan_(s); }, "isNA.prod"); expectB(isInf(a - x), n, [&](int i) { double s = d[i] - x; return inf_(s); }, "isInf.diff");
  vp_eqi(length(a + b), k, "length.sum"); vp_eqi(length(a * x), n, "length.prod"); vp_eqi(length(a < b), k, "length.cmp"); vp_eqi(length(x + a), n, "length.scalar");
  expectB(isNA(a < b), k, [&](int) { return false; }, "isNA.cmp"); expectB(isInf(a != b), k, [&](int) { return false; }, "isInf.cmp");
  vp_check(vp_throws([&] { dim(a + b); }), "dim.sum"); vp_check(vp_throws([&] { dim(-a); }), "dim.minus"); vp_check(vp_throws([&] { dim(coca(a, b)); }), "dim.temporary"); vp_check(vp_throws([&] { dim(a == b); }), "dim.cmp"); int one = 1; vp_check(vp_throws([&] { dim(subset(a, one)); }), "dim.subset");
  sexp c; c = a; expectB(isNA(std::move(c)), n, [&](int i) { return nan_(d[i]); }, "isNA.rvalue"); c = b; vp_eqi(length(std::move(c)), m, "length.rvalue"); c = a; expectB(isInf(std::move(c)), n, [&](int i) { return inf_(d[i]); }, "isInf.rvalue");
  for (int i = 0; i < n; i++) vp_eq(a[i], d[i], "query.elem"); for (int i = 0; i < m; i++) vp_eq(b[i], e[i], "query.elem");
}
VP_HARNESS(matrices) {
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)); sexp m; m = matrix(vector_numeric(r * c), int(r), int(c)); double d[9]; for (int i = 0; i < r * c; i++) { d[i] = vp_double(); m[i] = d[i]; } double x = vp_double();
  expectDim(m, r, c); Vec<int> q; q = dim(m); vp_eqi(q[0], r, "dim.var"); vp_eqi(q[1], c, "dim.var"); expectDim(m + m, r, c); expectDim(m * x, r, c); expectDim(x - m, r, c); expectDim(-m, r, c); expectDim(sinus(m), r, c); expectDim(m < x, r, c); expectDim(matrix(double(x), int(c), int(r)), c, r);
  expectDim(subset(m, true, true), r, c); Vec<int> i; i = coca(1); expectDim(subset(m, i, true), 1, c); expectDim(subset(m, true, i), r, 1); int one = 1; vp_check(vp_throws([&] { dim(subset(m, one, one)); }), "dim.cell");
  vp_eqi(length(m), r * c, "length.matrix"); Vec<bool> b; b = isNA(m); vp_eqi((long)b.size(), r * c, "isNA.msize"); for (int k = 0; k < r * c; k++) vp_eqi(b[k], nan_(d[k]), "isNA.matrix"); b = isInf(m); for (int k = 0; k < r * c; k++) vp_eqi(b[k], inf_(d[k]), "isInf.matrix");
  vp_eqi(m.im(), 1, "query.argmatrix"); vp_eqi((long)m.nr(), r, "query.rows"); vp_eqi((long)m.nc(), c, "query.cols"); for (int k = 0; k < r * c; k++) vp_eq(m[k], d[k], "query.elem");
  double raw[9]; for (int k = 0; k < r * c; k++) raw[k] = d[k]; Vec<double, Borrow<double>> bm(raw, r, c); expectDim(bm, r, c); vp_eqi(length(bm), r * c, "length.borrowed");
  m = x; vp_eqi(length(m), 1, "length.reassigned"); vp_check(vp_throws([&] { dim(m); }), "dim.reassigned");
}
VP_HARNESS(history) { // queries follow the variable
  int n = vp_pick(vp_int(1, 3)), k = vp_pick(vp_int(1, 3)); sexp v, u; v = vector_numeric(n); u = vector_numeric(k); double e[3]; for (int i = 0; i < k; i++) { e[i] = vp_double(); u[i] = e[i]; } double x = vp_double();
  v = u; vp_eqi(length(v), k, "history.length"); expectB(isNA(v), k, [&](int i) { return nan_(e[i]); }, "history.isNA"); v = coca(u, x, u); vp_eqi(length(v), 2 * k + 1, "history.longer"); v = matrix(std::move(u), int(k), 1); expectDim(v, k, 1); v = matrix(std::move(u), 1, int(k)); expectDim(v, 1, k); v = x; vp_eqi(length(v), 1, "history.scalar"); expectB(isInf(v), 1, [&](int) { return inf_(x); }, "history.isInf");
}
