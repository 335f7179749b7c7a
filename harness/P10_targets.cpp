#include "P10.inc"
template <typename T, typename G> static void typed(G any) {
  static const int RK[] = {0, 1, 2, 3, 5, 4}, CK[] = {0, 1, 2, 3, 5, 4};
  int r, c; dims(r, c);
  Vec<T> m; m = matrix(vector_numeric(r * c), int(r), int(c)); T d[MC];
  for (int i = 0; i < r * c; i++) { d[i] = any(); m[i] = d[i]; }
  int a = vp_pick(vp_int(0, 3)), b = vp_pick(vp_int(0, 3));
  readM<0x3f, 0x3f>(m, d, r, c, RK[a], CK[b], "mread.typed");
}
VP_HARNESS(t_int) { typed<int>([] { return vp_int(-30000, 30000); }); }
VP_HARNESS(t_lgl) { typed<bool>([] { return vp_bool(); }); }
VP_HARNESS(t_borrow) {
  static const int K[] = {0, 1, 2, 3};
  int r, c; dims(r, c); double raw[MC], d[MC]; for (int i = 0; i < r * c; i++) raw[i] = d[i] = vp_double();
  Vec<double, Borrow<double>> m(raw, r, c);
  int a = vp_pick(vp_int(0, 3)), b = vp_pick(vp_int(0, 3));
  readM<0xf, 0xf>(m, d, r, c, K[a], K[b], "mread.borrowed");
}
// temporaries, expressions and subsets (valid positions)
#ifdef VP_THOROUGH
#define RVQ 4
static void rdims(int &r, int &c) { dims(r, c); }
#else
#define RVQ 2
static void rdims(int &r, int &c) { r = 2; c = 3; }
#endif
template <typename V, typename E> static void rv(V &&v, E e, int r, int c) {
  static const int RK[] = {0, 3, 1, 5, 3}, CK[] = {3, 1, 5, 0, 3};
  int q0 = vp_pick(vp_int(0, RVQ)), rk = RK[q0], ck = CK[q0];
  Idx x, y;
  withIndex<0x2b>(rk, x, r, [&](const auto &ri) { withIndex<0x2b>(ck, y, c, [&](const auto &ci) {
    vp_assume(!(bad(x, r) | bad(y, c) | x.tooLong | y.tooLong));
    sexp q; q = subset(std::move(v), ri, ci);
    vp_eqi((long)q.size(), (long)x.k * y.k, "mrv.size");
    bool mat = isVecKind(rk) && isVecKind(ck);
    vp_eqi(q.im(), mat, "mrv.ismatrix");
    if (mat) { vp_eqi((long)q.nr(), x.k, "mrv.rows"); vp_eqi((long)q.nc(), y.k, "mrv.cols"); }
    for (int j = 0; j < y.k; j++) for (int i = 0; i < x.k; i++) {
      long p = (y.p[j] - 1) * r + x.p[i] - 1; double w = e(0); for (int k = 1; k < r * c; k++) w = p == k ? (double)e(k) : w;
      vp_eq(q[j * x.k + i], w, "mrv.elem");
    }
  }); });
}
VP_HARNESS(rv_expr) { int r, c; rdims(r, c); double d[MC]; sexp m; m = mkM(r, c, d); double s = vp_double(); rv(m - s, [&](int i) { return d[i] - s; }, r, c); }
VP_HARNESS(rv_neg) { int r, c; rdims(r, c); double d[MC]; sexp m; m = mkM(r, c, d); rv(-m, [&](int i) { return -d[i]; }, r, c); }
VP_HARNESS(rv_cmp) { int r, c; rdims(r, c); double d[MC]; sexp m; m = mkM(r, c, d); double s = vp_double(); rv(m < s, [&](int i) { return (double)(d[i] < s); }, r, c); }
VP_HARNESS(rv_temp) { int r, c; rdims(r, c); double d[MC]; sexp v = vector_numeric(r * c); for (int i = 0; i < r * c; i++) { d[i] = vp_double(); v[i] = d[i]; }
  rv(matrix(rep(v, 1), int(r), int(c)), [&](int i) { return d[i]; }, r, c); }
VP_HARNESS(rv_sub) { // a subset of a subset: rows of m in any order
  int r, c; rdims(r, c); double d[MC]; sexp m; m = mkM(r, c, d); Vec<int> o(SI{2}); int p[2]; for (int i = 0; i < 2; i++) { p[i] = vp_int(1, r); o[i] = p[i]; }
  rv(subset(m, o, true), [&](int i) { return d[(i / 2) * r + p[i % 2] - 1]; }, 2, c); }
// errors
VP_HARNESS(not_a_matrix) {
  int n = vp_pick(vp_int(1, 4)); sexp v = vector_numeric(n); double d[4]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; }
  Vec<int> ix(SI{1}); int a = vp_int(1, 4); ix[0] = a; Vec<bool> bx(SI{1}); bx[0] = true; double s = vp_frac(1, 4); sexp q; int k = vp_int(1, 4);
  vp_check(vp_throws([&] { q = subset(v, 1, 1); }), "nomat.int"); vp_check(vp_throws([&] { q = subset(v, true, true); }), "nomat.all");
  vp_check(vp_throws([&] { q = subset(v, ix, ix); }), "nomat.vec"); vp_check(vp_throws([&] { q = subset(v, s, true); }), "nomat.dbl");
  vp_check(vp_throws([&] { q = subset(v, bx, k); }), "nomat.lgl"); vp_check(vp_throws([&] { q = subset(v + 1.0, k, bx); }), "nomat.expr");
  vp_check(vp_throws([&] { q = v(s, s); }), "nomat.call"); vp_check(vp_throws([&] { q = subset(rep(v, 2), 1, 1); }), "nomat.temp");
  sexp m; m = matrix(vector_numeric(4), 2, 2); m = v; vp_check(vp_throws([&] { q = m(1, 1); }), "nomat.assigned");
  m = matrix(vector_numeric(4), 2, 2); m = m(1, true); vp_check(vp_throws([&] { q = m(1, 1); }), "nomat.row"); 
  vp_eqi((long)v.size(), n, "nomat.size"); for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "nomat.source");
}
VP_HARNESS(false_index) {
  double d[MC]; sexp m; m = mkM(2, 3, d); sexp q; int k = vp_int(1, 2); double s = vp_frac(1, 2); Vec<int> ix(SI{1}); ix[0] = k; Vec<bool> bx(SI{1}); bx[0] = true;
  vp_check(vp_throws([&] { q = m(false, true); }), "false.row"); vp_check(vp_throws([&] { q = m(true, false); }), "false.col"); vp_check(vp_throws([&] { q = m(false, k); }), "false.row_int");
  vp_check(vp_throws([&] { q = m(k, false); }), "false.int_col"); vp_check(vp_throws([&] { q = m(false, s); }), "false.row_dbl"); vp_check(vp_throws([&] { q = m(s, false); }), "false.dbl_col");
  vp_check(vp_throws([&] { q = m(false, ix); }), "false.row_vec"); vp_check(vp_throws([&] { q = m(ix, false); }), "false.vec_col"); vp_check(vp_throws([&] { q = m(false, bx); }), "false.row_lgl"); vp_check(vp_throws([&] { q = m(bx, false); }), "false.lgl_col");
  for (int i = 0; i < 6; i++) vp_eq(m[i], d[i], "false.source");
}
// the spelling m(r, c), scalars from cells, and reading in expressions
VP_HARNESS(cells) {
  double d[MC]; sexp m; m = mkM(3, 2, d); int i = vp_int(1, 3), j = vp_int(1, 2); double fi = vp_frac(1, 3), fj = vp_frac(1, 2); double e = d[(j - 1) * 3 + i - 1];
  sexp q; q = m(i, j); vp_eq(q[0], e, "cells.int"); double s = m(i, j); vp_eq(s, e, "cells.scalar");
  q = m(fi, fj); vp_eq(q[0], d[((int)fj - 1) * 3 + (int)fi - 1], "cells.dbl"); q = m(fi, j); vp_eq(q[0], d[(j - 1) * 3 + (int)fi - 1], "cells.dbl_int"); q = m(i, fj); vp_eq(q[0], d[((int)fj - 1) * 3 + i - 1], "cells.int_dbl");
  q = m(i, true) + m(i, true); vp_eqi((long)q.size(), 2, "cells.row_size"); for (int k = 0; k < 2; k++) vp_eq(q[k], d[k * 3 + i - 1] + d[k * 3 + i - 1], "cells.row");
  q = m(true, j) * 2.0; vp_eqi((long)q.size(), 3, "cells.col_size"); for (int k = 0; k < 3; k++) vp_eq(q[k], d[(j - 1) * 3 + k] * 2.0, "cells.col");
  q = m(true, true) - m; vp_eqi(q.im(), 1, "cells.all_matrix"); vp_eqi((long)q.nr(), 3, "cells.all_rows"); for (int k = 0; k < 6; k++) vp_eq(q[k], d[k] - d[k], "cells.all");
  q = m(colon(3, 1), colon(2, 1)); vp_eqi((long)q.nr(), 3, "cells.rev_rows"); for (int k = 0; k < 6; k++) vp_eq(q[k], d[5 - k], "cells.rev");
}
