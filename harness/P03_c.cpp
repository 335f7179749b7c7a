#include "P03.inc"
static double neg(double x) { return -x; }
UN(f_minus, -, neg)
// long vectors, every function once on the same argument (functions must not be mixed up)
VP_HARNESS(long_all) {
  static const int L[] = {16, 100, 300};
  int n = L[vp_pick(vp_int(0, 2))];
  static double d[300];
  sexp a = vector_numeric(n), r;
  for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; }
  r = sinus(a); for (int i = 0; i < n; i++) vp_eq(r[i], std::sin(d[i]), "long.sin");
  r = -a; for (int i = 0; i < n; i++) vp_eq(r[i], -d[i], "long.minus");
  r = etr::exp(a) - sqroot(a); for (int i = 0; i < n; i++) vp_eq(r[i], std::exp(d[i]) - std::sqrt(d[i]), "long.mix");
  a = ln(a); for (int i = 0; i < n; i++) vp_eq(a[i], std::log(d[i]), "long.self");
}
// history: the same expression evaluated repeatedly into targets of changing length
VP_HARNESS(reuse) {
  int n = vp_pick(vp_int(1, 4)), m = vp_pick(vp_int(1, 4));
  sexp a = vector_numeric(n), b = vector_numeric(m), r;
  double da[4], db[4];
  for (int i = 0; i < n; i++) { da[i] = vp_double(); a[i] = da[i]; }
  for (int i = 0; i < m; i++) { db[i] = vp_double(); b[i] = db[i]; }
  r = tangens(a); r = cosinus(b); r = acosinus(a + r);
  int k = n > m ? n : m;
  vp_eqi((long)r.size(), k, "reuse.size");
  for (int i = 0; i < k; i++) vp_eq(r[i], std::acos(da[i % n] + std::cos(db[i % m])), "reuse.elem");
}
