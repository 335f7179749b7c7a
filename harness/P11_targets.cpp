#include "P11.inc"
template <typename T, typename G> static void typed(G any) {
  static const int RK[] = {1, 3, 0, 2, 4};
#ifdef VP_THOROUGH
  constexpr int H = 4;
#else
  constexpr int H = 1;
#endif
  int r, c; dims(r, c);
  Vec<T> m; m = matrix(vector_numeric(r * c), int(r), int(c)); T d[MC];
  for (int i = 0; i < r * c; i++) { d[i] = any(); m[i] = d[i]; }
  int a = vp_pick(vp_int(0, H)), b = vp_pick(vp_int(0, H)), k = vp_pick(vp_int(0, RHS_HI));
  writeM<T, 0x1f, 0x1f>(m, d, r, c, RK[a], RK[b], k);
}
VP_HARNESS(t_int) { typed<int>([] { return vp_int(-30000, 30000); }); }
VP_HARNESS(t_lgl) { typed<bool>([] { return vp_bool(); }); }
VP_HARNESS(t_borrow) {
  static const int K[] = {0, 1, 3, 2};
  int r, c; dims(r, c); double raw[MC + 1], d[MC]; for (int i = 0; i < r * c; i++) raw[i] = d[i] = vp_double();
  raw[r * c] = 7.0;
  int a = vp_pick(vp_int(0, 2)), b = vp_pick(vp_int(0, 2)), k = vp_pick(vp_int(0, RHS_HI));
  bool any = false;
  { Vec<double, Borrow<double>> m(raw, r, c); writeM<double, 0xf, 0xf>(m, d, r, c, K[a], K[b], k, -1); (void)any; vp_eqi((long)m.size(), r * c, "mwb.size"); for (int i = 0; i < r * c; i++) vp_eq(raw[i], m[i], "mwb.raw"); }
  vp_eq(raw[r * c], 7.0, "mwb.behind");
}
// single cells and rows written from other cells of the same matrix
VP_HARNESS(overlap) {
  double d[MC]; sexp m; m = mkM(3, 3, d); int a = vp_int(1, 3), b = vp_int(1, 3), c = vp_int(1, 3);
  m(a, true) = m(b, true); for (int j = 0; j < 3; j++) { double w = d[j * 3 + b - 1]; for (int i = 0; i < 3; i++) d[j * 3 + i] = i == a - 1 ? w : d[j * 3 + i]; }
  for (int i = 0; i < 9; i++) vp_eq(m[i], d[i], "over.row");
  m(true, c) = m(a, true); double o[MC]; for (int i = 0; i < 9; i++) o[i] = d[i];
  for (int i = 0; i < 3; i++) { double w = o[i * 3 + a - 1]; for (int j = 0; j < 3; j++) d[j * 3 + i] = j == c - 1 ? w : d[j * 3 + i]; }
  for (int i = 0; i < 9; i++) vp_eq(m[i], d[i], "over.col");
  Vec<int> p(SI{3}); int q[3]; for (int i = 0; i < 3; i++) { q[i] = vp_int(1, 3); p[i] = q[i]; }
  for (int i = 0; i < 9; i++) o[i] = d[i];
  m(true, true) = m(p, true); for (int i = 0; i < 9; i++) vp_eq(m[i], o[(i / 3) * 3 + q[i % 3] - 1], "over.perm");
  vp_eqi((long)m.nr(), 3, "over.rows"); vp_eqi(m.im(), 1, "over.matrix");
}
VP_HARNESS(sequence) { // several writes one after another
  double d[MC]; sexp m; m = mkM(2, 3, d); int i = vp_int(1, 2), j = vp_int(1, 3); double s = vp_double(), t = vp_double();
  auto cell = [&](int a, int b, double v) { for (int k = 0; k < 6; k++) d[k] = k == (b - 1) * 2 + a - 1 ? v : d[k]; };
  m(i, j) = s; cell(i, j, s); m(i, true) = t; for (int b = 1; b <= 3; b++) cell(i, b, t);
  m(true, j) = m(true, 1); { double x = d[0], y = d[1]; cell(1, j, x); cell(2, j, y); }
  double f = vp_frac(1, 2), g = vp_frac(1, 3); m(f, g) = m(f, g) + s; { double v = d[((int)g - 1) * 2 + (int)f - 1]; cell((int)f, (int)g, v + s); }
  for (int k = 0; k < 6; k++) vp_eq(m[k], d[k], "seq.elem");
  vp_eqi((long)m.size(), 6, "seq.size"); vp_eqi((long)m.nr(), 2, "seq.rows"); vp_eqi((long)m.nc(), 3, "seq.cols"); vp_eqi(m.im(), 1, "seq.matrix");
}
