#include "P15.inc"
// element type: the common arithmetic type, at every position
VP_HARNESS(types) {
  bool b = vp_bool(), c = vp_bool(); int i = vp_int(-30000, 30000); double d = vp_double(); Vec<bool> vb; Vec<int> vi; sexp vd; vb = coca(b, c); vi = coca(i, i); vd = coca(d, d);
  static_assert(elemType<bool, decltype(coca(b, c))> && elemType<bool, decltype(coca(vb, b))> && elemType<int, decltype(coca(i, i))> && elemType<int, decltype(coca(vi, b))> && elemType<int, decltype(coca(vb, i))>);
  static_assert(elemType<double, decltype(coca(i, d))> && elemType<double, decltype(coca(vb, vd))> && elemType<double, decltype(coca(vd, vi))> && elemType<double, decltype(coca(i, i, d))> && elemType<double, decltype(coca(d, i, i))> && elemType<double, decltype(coca(vi, vd, vb))> && elemType<int, decltype(coca(vb, vb, vi, b))> && elemType<double, decltype(coca(b, i, b, vd))>);
  auto q = coca(b, c, b); vp_eqi((long)q.size(), 3, "cocat.size"); vp_eqi(q[0], b, "cocat.b"); vp_eqi(q[1], c, "cocat.b"); vp_eqi(q[2], b, "cocat.b");
  auto r = coca(i, b, vi); vp_eqi(r[0], i, "cocat.i"); vp_eqi(r[1], b, "cocat.i"); vp_eqi(r[2], i, "cocat.i"); vp_eqi((long)r.size(), 4, "cocat.size");
  auto s = coca(i, i, i, d); vp_eq(s[0], i, "cocat.d"); vp_eq(s[3], d, "cocat.d"); vp_eqi((long)s.size(), 4, "cocat.size");
}
VP_HARNESS(literals) { auto q = coca(1, 2.5, true, -3); vp_eqi((long)q.size(), 4, "cocal.size"); vp_eq(q[0], 1, "cocal"); vp_eq(q[1], 2.5, "cocal"); vp_eq(q[2], 1, "cocal"); vp_eq(q[3], -3, "cocal"); }
VP_HARNESS(itself) { // a variable extended by itself, also repeatedly
  int n = vp_pick(vp_int(1, NMAX)); sexp v; v = vector_numeric(n); double d[4 * NMAX + 8]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; } double z = vp_double();
  v = coca(v, z, v); d[n] = z; for (int i = 0; i < n; i++) d[n + 1 + i] = d[i]; int m = 2 * n + 1; vp_eqi((long)v.size(), m, "cocas.size"); for (int i = 0; i < m; i++) vp_eq(v[i], d[i], "cocas.elem");
  v = coca(v, -v); vp_eqi((long)v.size(), 2 * m, "cocas.size2"); for (int i = 0; i < 2 * m; i++) { double e = d[i % m]; vp_eq(v[i], i < m ? e : -e, "cocas.elem2"); }
  v = coca(z); vp_eqi((long)v.size(), 1, "cocas.size3"); vp_eq(v[0], z, "cocas.elem3");
}
VP_HARNESS(nested) { double a = vp_double(), b = vp_double(), c = vp_double(); int i = vp_int(-30000, 30000); sexp v; v = coca(coca(a, i), coca(coca(b), c), rep(a, 2), colon(1, 2)); double w[8] = {a, (double)i, b, c, a, a, 1, 2}; vp_eqi((long)v.size(), 8, "cocan.size"); for (int k = 0; k < 8; k++) vp_eq(v[k], w[k], "cocan.elem"); }
VP_HARNESS(of_matrix) { double d[6]; sexp m; m = matrix(vector_numeric(6), 2, 3); for (int i = 0; i < 6; i++) { d[i] = vp_double(); m[i] = d[i]; } double z = vp_double();
  sexp v; v = coca(m, z); vp_eqi((long)v.size(), 7, "cocam.size"); vp_eqi(v.im(), 0, "cocam.matrix"); for (int i = 0; i < 6; i++) vp_eq(v[i], d[i], "cocam.elem"); vp_eq(v[6], z, "cocam.elem"); vp_eqi(m.im(), 1, "cocam.arg");
  v = coca(subset(m, true, 2), z); vp_eqi((long)v.size(), 3, "cocam.colsize"); vp_eq(v[0], d[2], "cocam.col"); vp_eq(v[1], d[3], "cocam.col"); vp_eq(v[2], z, "cocam.col"); }
