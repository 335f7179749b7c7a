// BOUND: the 16 functions for the uniform, normal, log-normal and gamma distributions, arguments of 1..3 elements each (all combinations; flags of 1..2), all double values, flags 0 and 1; up to 4 random numbers, two calls in a row
// OUTSIDE: what the R functions of that name compute (modelled as uninterpreted functions of their arguments); empty arguments; concurrent calls; counts of random numbers above the bound
// ASSUME: the R functions behave as R documents them: they return a value for each set of arguments, and random numbers are drawn between GetRNGstate and PutRNGstate
#include "etr_r.h"
using namespace etr;
struct A { int n; double d[4]; sexp v; double operator()(int i) const { return d[i % n]; }
  A(int n_, int kind) : n(n_) { v = vector_numeric(n); for (int i = 0; i < n; i++) { if (kind == 2) d[i] = vp_bool(); else d[i] = vp_double(); v[i] = d[i]; } }
  void same() { vp_eqi((long)v.size(), n, "dist.arg"); for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "dist.arg"); } };
static int mx(int a, int b) { return a > b ? a : b; }
static int len(int hi = 3) { return vp_pick(vp_int(1, hi)); }
template <typename F, typename G> void dfun(F f, G g) { A x(len(), 0), a(len(), 0), b(len(), 0), l(len(2), 2); const sexp r = f(x.v, a.v, b.v, l.v); int n = mx(mx(x.n, a.n), mx(b.n, l.n)); vp_eqi((long)r.size(), n, "dist.length"); vp_eqi(r.im(), 0, "dist.matrix"); for (int i = 0; i < n; i++) vp_eq(r[i], g(x(i), a(i), b(i), (int)l(i)), "dist.value"); x.same(); a.same(); b.same(); l.same(); vp_eqi(vpr_rng_open | vpr_rng_error, 0, "dist.rngstate"); }
template <typename F, typename G> void pfun(F f, G g) { A x(len(), 0), a(len(2), 0), b(len(2), 0), w(len(3), 2), l(len(2), 2); const sexp r = f(x.v, a.v, b.v, w.v, l.v); int n = mx(mx(x.n, a.n), mx(mx(b.n, w.n), l.n)); vp_eqi((long)r.size(), n, "dist.length"); vp_eqi(r.im(), 0, "dist.matrix"); for (int i = 0; i < n; i++) vp_eq(r[i], g(x(i), a(i), b(i), (int)w(i), (int)l(i)), "dist.value"); x.same(); a.same(); b.same(); w.same(); l.same(); vp_eqi(vpr_rng_open | vpr_rng_error, 0, "dist.rngstate"); }
template <typename F, typename G> void pwide(F f, G g) { A x(len(), 0), a(len(), 0), b(len(), 0), w(len(2), 2), l(1, 2); const sexp r = f(x.v, a.v, b.v, w.v, l.v); int n = mx(mx(x.n, a.n), mx(b.n, w.n)); vp_eqi((long)r.size(), n, "dist.length"); for (int i = 0; i < n; i++) vp_eq(r[i], g(x(i), a(i), b(i), (int)w(i), (int)l(i)), "dist.value"); }
// random numbers: the k-th draw of the generator with the recycled parameters
template <typename F, typename G> void rfun(F f, G g) { for (int c = 0; c < 2; c++) { A a(len(), 0), b(len(), 0); int k = vp_pick(vp_int(-1, 4)), start = vpr_draws, n; sexp x; 
    bool many = k > 1 && vp_pick(vp_int(0, 1)); if (many) { x = vector_numeric(int(k)); for (int i = 0; i < k; i++) x[i] = vp_double(); n = k; } else { double fr = vp_pick(vp_int(0, 1)) * 0.75; x = k + fr; n = k < 1 ? 0 : k; if (k < 0) n = 0; }
    if (n == 0) { vp_check(vp_throws([&] { f(x, a.v, b.v); }), "dist.none"); vp_eqi(vpr_draws, start, "dist.draws"); continue; }
    const sexp r = f(x, a.v, b.v); vp_eqi((long)r.size(), n, "dist.count"); vp_eqi(vpr_draws, start + n, "dist.draws"); vpr_draws = start; int open = vpr_rng_open; vpr_rng_open = 1; for (int i = 0; i < n; i++) vp_eq(r[i], g(a(i), b(i)), "dist.random"); vpr_rng_open = open; a.same(); b.same(); vp_eqi(vpr_rng_open | vpr_rng_error, 0, "dist.rngstate"); } }
#define LATE(f) [](auto &...t) { return f(t...); }
#define DIST(N) \
  VP_HARNESS(d##N) { dfun(LATE(d##N##_etr), [](double x, double a, double b, int l) { return R::d##N(x, a, b, l); }); } \
  VP_HARNESS(p##N) { pfun(LATE(p##N##_etr), [](double x, double a, double b, int w, int l) { return R::p##N(x, a, b, w, l); }); } \
  VP_HARNESS(q##N) { pfun(LATE(q##N##_etr), [](double x, double a, double b, int w, int l) { return R::q##N(x, a, b, w, l); }); } \
  VP_HARNESS(p##N##_wide) { pwide(LATE(p##N##_etr), [](double x, double a, double b, int w, int l) { return R::p##N(x, a, b, w, l); }); } \
  VP_HARNESS(q##N##_wide) { pwide(LATE(q##N##_etr), [](double x, double a, double b, int w, int l) { return R::q##N(x, a, b, w, l); }); } \
  VP_HARNESS(r##N) { rfun(LATE(r##N##_etr), [](double a, double b) { return R::r##N(a, b); }); }
DIST(unif) DIST(norm) DIST(lnorm)
// the third argument of the gamma functions is the rate
VP_HARNESS(dgamma) { dfun(LATE(dgamma_etr), [](double x, double a, double b, int l) { return R::dgamma(x, a, 1.0 / b, l); }); }
VP_HARNESS(pgamma) { pfun(LATE(pgamma_etr), [](double x, double a, double b, int w, int l) { return R::pgamma(x, a, 1.0 / b, w, l); }); }
VP_HARNESS(qgamma) { pfun(LATE(qgamma_etr), [](double x, double a, double b, int w, int l) { return R::qgamma(x, a, 1.0 / b, w, l); }); }
VP_HARNESS(pgamma_wide) { pwide(LATE(pgamma_etr), [](double x, double a, double b, int w, int l) { return R::pgamma(x, a, 1.0 / b, w, l); }); }
VP_HARNESS(qgamma_wide) { pwide(LATE(qgamma_etr), [](double x, double a, double b, int w, int l) { return R::qgamma(x, a, 1.0 / b, w, l); }); }
VP_HARNESS(rgamma) { rfun(LATE(rgamma_etr), [](double a, double b) { return R::rgamma(a, 1.0 / b); }); }
