// BOUND: tables of 4..5 points (7 thorough) with ascending times, times either fixed (with negative ones) or anywhere in consecutive ranges between 0 and 699 with distances of at least 1, every value up to 1000 in magnitude, every finite evaluation point up to 1e6 in magnitude; every form of evaluation point, time vector and value vector that the function accepts
// OUTSIDE: unordered or duplicated times; distances of times below 1 in the symbolic tables; integer tables, and subsets or expressions as time vector (do not compile); rounding errors (results are compared modulo rounding)
#include "etr_inc.h"
using namespace etr;
#ifdef VP_THOROUGH
constexpr int CN = 7;
#else
constexpr int CN = 5;
#endif
template <typename T> const T &ro(const T &t) { return t; }
// the spline through the table p at x: written from the statement
static double spline(const double *tm, const double *y, int n, double t) {
  if (t < tm[0]) return y[0];
  if (t >= tm[n - 1]) return y[n - 1];
  int i = 0;
  while (!(t < tm[i + 1])) i++;
  // previous and next neighbours wrap around; the one after the end is shifted by the last time
  double tp = i == 0 ? tm[n - 1] : tm[i - 1], yp = i == 0 ? y[n - 1] : y[i - 1];
  double tn = i == n - 2 ? tm[0] + tm[n - 1] : tm[i + 2], yn = i == n - 2 ? y[0] : y[i + 2];
  double x = (t - tm[i]) / (tm[i + 1] - tm[i]), h = tm[i + 1] - tm[i];
  double m1 = (y[i + 1] - yp) / (tm[i + 1] - tp), m2 = (yn - y[i]) / (tn - tm[i]);
  double x2 = pow(x, 2), x3 = pow(x, 3);
  return (2. * x3 - 3. * x2 + 1.) * y[i] + (x3 - 2. * x2 + x) * h * m1 + (-2. * x3 + 3. * x2) * y[i + 1] + (x3 - x2) * h * m2;
}
struct Tab {
  int n; double tm[CN], y[CN]; sexp T, Y;
  explicit Tab(int n_, bool anytime = true) : n(n_) { T = vector_numeric(n); Y = vector_numeric(n);
    static const double fix[7] = {-1.5, 0, 0.25, 2, 5, 10, 11};
    for (int i = 0; i < n; i++) { if (anytime) { tm[i] = vp_real(100. * i, 100. * i + 99.); } else tm[i] = fix[i]; T[i] = tm[i]; }
    for (int i = 0; i < n; i++) { y[i] = vp_real(-1e3, 1e3); Y[i] = y[i]; } }
  template <typename R> void expect(R r, double t, const char *id) const { vp_close((double)r, spline(tm, y, n, t), id); }
  void same() { vp_eqi((long)T.size(), n, "cmr.argsize"); vp_eqi((long)Y.size(), n, "cmr.argsize"); for (int i = 0; i < n; i++) { vp_eq(T[i], tm[i], "cmr.time"); vp_eq(Y[i], y[i], "cmr.value"); } }
};
