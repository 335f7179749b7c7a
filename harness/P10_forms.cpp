#include "P10.inc"
// every index form as a row and as a column, combined with the simple kinds
template <int k> static void rowForm() { static const int P[] = {0, 1, 3, 5}; readNum<1u << k, 0x2b>(k, P[vp_pick(vp_int(0, 2))]); }
template <int k> static void colForm() { static const int P[] = {0, 1, 3, 5}; readNum<0x2b, 1u << k>(P[vp_pick(vp_int(0, 2))], k); }
#define T(k, name) VP_HARNESS(row_##name) { rowForm<k>(); } VP_HARNESS(col_##name) { colForm<k>(); }
T(6, colon) T(7, coca) T(8, cocad) T(9, expr) T(11, sub) T(12, borrow) T(15, neg)
// logical expressions
static void cmpForm(bool row) {
  int r, c; dims(r, c); double d[MC]; sexp m; m = mkM(r, c, d);
  int n = row ? r : c;
  sexp u = vector_numeric(n); bool b[3]; double s = vp_double(); int k = 0; int p[3];
  for (int i = 0; i < n; i++) { double e = vp_double(); u[i] = e; b[i] = e >= s; if (b[i]) p[k++] = i; }
  sexp q;
  bool t = row ? vp_throws([&] { q = subset(m, u >= s, true); }) : vp_throws([&] { q = subset(m, true, u >= s); });
  vp_eqi(t, k == 0, "mcmp.error");
  if (t) return;
  vp_eqi((long)q.nr(), row ? k : r, "mcmp.rows"); vp_eqi((long)q.nc(), row ? c : k, "mcmp.cols"); vp_eqi((long)q.size(), k * (row ? c : r), "mcmp.size");
  for (int i = 0; i < k; i++) for (int j = 0; j < (row ? c : r); j++) vp_eq(q[row ? j * k + i : i * r + j], d[row ? j * r + p[i] : p[i] * r + j], "mcmp.elem");
}
VP_HARNESS(row_cmp) { cmpForm(true); }
VP_HARNESS(col_cmp) { cmpForm(false); }
VP_HARNESS(lgl_matrix_itself) { // m(m > s, ...) style: a logical index must not be longer than the dimension
  double d[MC]; sexp m; m = mkM(2, 2, d); double s = vp_double(); sexp q;
  vp_check(vp_throws([&] { q = subset(m, m > s, true); }), "itself.row"); vp_check(vp_throws([&] { q = subset(m, 1, m > s); }), "itself.col");
}
