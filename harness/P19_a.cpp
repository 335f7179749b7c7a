// BOUND: tables of 1..5 points (8 thorough), times either fixed or anywhere in consecutive ranges with distances of at least 1, every value up to 1000 in magnitude, every double as evaluation point outside the table and every finite one inside; variables, const variables and borrowed vectors as table, every form of evaluation point the function accepts
// OUTSIDE: unordered or duplicated times; scalar evaluation points and tables given by expressions or subsets (do not compile); rounding errors (results are compared modulo rounding)
#include "etr_inc.h"
using namespace etr;
#ifdef VP_THOROUGH
constexpr int LN = 8;
#else
constexpr int LN = 5;
#endif
template <typename T> const T &ro(const T &t) { return t; }
static double line(const double *tm, const double *y, int n, double t) {
  if (t >= tm[n - 1]) return y[n - 1];
  if (t <= tm[0]) return y[0];
  int i = 0;
  while (!(t < tm[i + 1])) i++;
  return (y[i + 1] - y[i]) / (tm[i + 1] - tm[i]) * (t - tm[i]) + y[i];
}
struct Tab {
  int n; double tm[LN], y[LN]; sexp T, Y;
  explicit Tab(int n_, bool anytime = true) : n(n_) { T = vector_numeric(n); Y = vector_numeric(n);
    static const double fix[8] = {-1.5, 0, 0.25, 2, 5, 10, 11, 1000};
    for (int i = 0; i < n; i++) { if (anytime) { tm[i] = vp_real(100. * i - 200., 100. * i - 101.); } else tm[i] = fix[i]; T[i] = tm[i]; }
    for (int i = 0; i < n; i++) { y[i] = vp_real(-1e3, 1e3); Y[i] = y[i]; } }
  void expect(double r, double t, const char *id) const { vp_close(r, line(tm, y, n, t), id); }
  void same() { vp_eqi((long)T.size(), n, "li.argsize"); vp_eqi((long)Y.size(), n, "li.argsize"); for (int i = 0; i < n; i++) { vp_eq(T[i], tm[i], "li.time"); vp_eq(Y[i], y[i], "li.value"); } }
};
static sexp one(double d) { sexp t; t = d; return t; }
VP_HARNESS(anytime) { Tab p(vp_pick(vp_int(1, LN))); double t = vp_real(-1e6, 1e6); sexp v = one(t); p.expect(li(v, p.T, p.Y), t, "li.any"); vp_eqi((long)v.size(), 1, "li.pointsize"); vp_eq(v[0], t, "li.point"); p.same(); }
VP_HARNESS(fixed) { Tab p(vp_pick(vp_int(1, LN)), false); double t = vp_real(-1e6, 1e6); sexp v = one(t); p.expect(li(ro(v), ro(p.T), ro(p.Y)), t, "li.fixed"); p.same(); }
VP_HARNESS(outside) { Tab p(vp_pick(vp_int(1, LN))); double t = vp_double(); vp_assume((t <= p.tm[0]) | (t >= p.tm[p.n - 1])); sexp v = one(t); double r = li(v, p.T, p.Y); if (t >= p.tm[p.n - 1]) vp_eq(r, p.y[p.n - 1], "li.after"); else vp_eq(r, p.y[0], "li.before"); p.same(); }
VP_HARNESS(knots) { Tab p(vp_pick(vp_int(1, LN))); int k = vp_pick(vp_int(0, p.n - 1)); sexp v = one(p.tm[k]); vp_close(li(v, p.T, p.Y), p.y[k], "li.knot"); p.same(); }
VP_HARNESS(between) { Tab p(vp_pick(vp_int(2, LN)), false); double t = vp_real(-2, 1001); int k = vp_pick(vp_int(0, p.n - 2)); vp_assume((t >= p.tm[k]) & (t <= p.tm[k + 1])); sexp v = one(t); double w = (t - p.tm[k]) / (p.tm[k + 1] - p.tm[k]); vp_close(li(v, p.T, p.Y), p.y[k] * (1. - w) + p.y[k + 1] * w, "li.mix"); }
VP_HARNESS(point_forms) { Tab p(3, false); double a = vp_real(-10, 10), b = vp_real(-10, 10); sexp v; v = coca(a, b); int two = 2; p.expect(li(subset(v, two), p.T, p.Y), b, "li.subset"); sexp w = one(a); p.expect(li(w + 0.5, p.T, p.Y), a + 0.5, "li.sum"); p.expect(li(-w, p.T, p.Y), -a, "li.minus"); p.expect(li(coca(b), p.T, p.Y), b, "li.temporary"); vp_check(vp_throws([&] { li(v, p.T, p.Y); }), "li.two"); p.same(); vp_eq(v[0], a, "li.points"); vp_eq(v[1], b, "li.points"); }
VP_HARNESS(borrowed) { Tab p(vp_pick(vp_int(1, 4))); double rt[LN], ry[LN]; for (int i = 0; i < p.n; i++) { rt[i] = p.tm[i]; ry[i] = p.y[i]; } Vec<double, Borrow<double>> T(rt, (std::size_t)p.n), Y(ry, (std::size_t)p.n); double t = vp_real(-1e6, 1e6), rv = t; Vec<double, Borrow<double>> v(&rv, (std::size_t)1); p.expect(li(v, T, Y), t, "li.borrowed"); for (int i = 0; i < p.n; i++) { vp_eq(rt[i], p.tm[i], "li.time"); vp_eq(ry[i], p.y[i], "li.value"); } vp_eq(rv, t, "li.point"); }
VP_HARNESS(integers) { int n = vp_pick(vp_int(1, 4)); Vec<int> T(SI{n}), Y(SI{n}); double tm[4], y[4]; for (int i = 0; i < n; i++) { int q = vp_int(100 * i - 200, 100 * i - 101); T[i] = q; tm[i] = q; q = vp_int(-1000, 1000); Y[i] = q; y[i] = q; } int t = vp_int(-300, 300); Vec<int> v(SI{1}); v[0] = t; vp_close(li(v, T, Y), line(tm, y, n, t), "li.int"); }
VP_HARNESS(lengths) {
  int n = vp_pick(vp_int(1, 5)), m = vp_pick(vp_int(1, 5)); sexp T, Y; T = vector_numeric(n); Y = vector_numeric(m); double y[6]; for (int i = 0; i < n; i++) T[i] = i; for (int i = 0; i < m; i++) { y[i] = vp_double(); Y[i] = y[i]; }
  double t = vp_double(); sexp v = one(t); if (n != m) vp_check(vp_throws([&] { li(v, T, Y); }), "li.length"); sexp w; w = coca(t, t, t); vp_check(vp_throws([&] { li(w, T, Y); }), "li.three");
  for (int i = 0; i < n; i++) vp_eq(T[i], i, "li.time"); for (int i = 0; i < m; i++) vp_eq(Y[i], y[i], "li.value");
}
