#include "P14.inc"
REP(6) REP(7) REP(8) REP(9) REP(10) REP(11)
VP_HARNESS(direct) { // literal arguments and nesting
  double a = vp_double(), b = vp_double(); int n = vp_pick(vp_int(1, CMAX)), k = vp_pick(vp_int(1, 2));
  sexp q; q = rep(rep(coca(a, b), int(n)), int(k)); vp_eqi((long)q.size(), 2 * n * k, "rep.nested_size"); for (int i = 0; i < 2 * n * k; i++) vp_eq(q[i], i % 2 ? b : a, "rep.nested");
  q = rep(a, 2) + rep(b, n); vp_eqi((long)q.size(), n > 2 ? n : 2, "rep.expr_size"); for (int i = 0; i < (int)q.size(); i++) vp_eq(q[i], a + b, "rep.expr");
  q = coca(b, a); q = rep(q, n); vp_eqi((long)q.size(), 2 * n, "rep.self_size"); for (int i = 0; i < 2 * n; i++) vp_eq(q[i], i % 2 ? a : b, "rep.self");
  q = coca(2.0); q = rep(q, q); vp_eqi((long)q.size(), 2, "rep.both_size"); vp_eq(q[1], 2.0, "rep.both");
}
VP_HARNESS(of_matrix) { // the elements of a matrix, as a vector
  int r = vp_pick(vp_int(1, 2)), c = vp_pick(vp_int(1, 3)), n = vp_pick(vp_int(1, 2)); sexp m; m = matrix(vector_numeric(r * c), int(r), int(c)); double d[6]; for (int i = 0; i < r * c; i++) { d[i] = vp_double(); m[i] = d[i]; }
  sexp q; q = rep(m, n); vp_eqi((long)q.size(), r * c * n, "rep.msize"); vp_eqi(q.im(), 0, "rep.mmatrix"); for (int i = 0; i < r * c * n; i++) vp_eq(q[i], d[i % (r * c)], "rep.melem");
  vp_eqi(m.im(), 1, "rep.marg"); vp_eqi((long)m.nr(), r, "rep.mrows"); vp_eqi((long)m.nc(), c, "rep.mcols");
  q = rep(m + 1.0, int(n)); for (int i = 0; i < r * c * n; i++) vp_eq(q[i], d[i % (r * c)] + 1.0, "rep.mexpr");
}
