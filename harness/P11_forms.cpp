#include "P11.inc"
#ifdef VP_THOROUGH
#define OTHER 2
#else
#define OTHER 0
#endif
template <int k> static void rowForm() { static const int P[] = {1, 0, 3}; writeNum<1u << k, 0xb>(k, P[vp_pick(vp_int(0, OTHER))]); }
template <int k> static void colForm() { static const int P[] = {1, 0, 3}; writeNum<0xb, 1u << k>(P[vp_pick(vp_int(0, OTHER))], k); }
#define T(k, name) VP_HARNESS(row_##name) { rowForm<k>(); } VP_HARNESS(col_##name) { colForm<k>(); }
T(6, colon) T(7, coca) T(8, cocad) T(9, expr) T(11, sub) T(12, borrow) T(15, neg)
static void cmpForm(bool row) {
  int r, c; dims(r, c); double d[MC]; sexp m; m = mkM(r, c, d);
  int n = row ? r : c;
  sexp u = vector_numeric(n); bool b[3]; double s = vp_double(), w = vp_double(); int k = 0;
  for (int i = 0; i < n; i++) { double e = vp_double(); u[i] = e; b[i] = e >= s; if (b[i]) k++; }
  bool t = row ? vp_throws([&] { subset(m, u >= s, true) = w; }) : vp_throws([&] { subset(m, true, u >= s) = w; });
  vp_eqi(t, k == 0, "mwcmp.error");
  vp_eqi((long)m.nr(), r, "mwcmp.rows"); vp_eqi((long)m.nc(), c, "mwcmp.cols");
  for (int i = 0; i < r * c; i++) vp_eq(m[i], b[row ? i % r : i / r] ? w : d[i], "mwcmp.elem");
}
VP_HARNESS(row_cmp) { cmpForm(true); }
VP_HARNESS(col_cmp) { cmpForm(false); }
VP_HARNESS(wrong_args) { // not a matrix / false: nothing changes
  int n = vp_pick(vp_int(1, 4)); sexp v = vector_numeric(n); double d[4]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; }
  double s = vp_double(); int k = vp_int(1, 4); double f = vp_frac(1, 4); Vec<int> ix(SI{1}); ix[0] = k;
  vp_check(vp_throws([&] { subset(v, 1, 1) = s; }), "wnomat.int"); vp_check(vp_throws([&] { subset(v, true, true) = s; }), "wnomat.all");
  vp_check(vp_throws([&] { subset(v, ix, ix) = s; }), "wnomat.vec"); vp_check(vp_throws([&] { v(f, true) = s; }), "wnomat.dbl"); vp_check(vp_throws([&] { v(k, k) = v; }), "wnomat.self");
  vp_eqi((long)v.size(), n, "wnomat.size"); vp_eqi(v.im(), 0, "wnomat.matrix"); for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "wnomat.elem");
  double e[MC]; sexp m; m = mkM(2, 2, e);
  vp_check(vp_throws([&] { m(false, true) = s; }), "wfalse.row"); vp_check(vp_throws([&] { m(true, false) = s; }), "wfalse.col"); vp_check(vp_throws([&] { m(ix, false) = s; }), "wfalse.vec");
  for (int i = 0; i < 4; i++) vp_eq(m[i], e[i], "wfalse.elem");
}
