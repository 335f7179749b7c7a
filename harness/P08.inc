// BOUND: vectors of length 1..3 (5 thorough), index vectors of 1..3 entries with values -2..n+2 (int) or |x| <= 1e6 (double), logical indices of length 1..n+1
// OUTSIDE: double indices that are NaN, infinite or above 1e6; index types other than bool, int, double
#include "index.h"
// T: element type of target.  get: the expected element at a position
template <typename V, typename T> void read(V &v, const T *d, int n, int kind, const char *id) {
  Idx x;
  withIndex(kind, x, n, [&](const auto &idx) {
    bool b = bad(x, n);
    sexp r;
    bool t = vp_throws([&] { r = subset(v, idx); });
    vp_eqi(t, b, "read.error");
    if (b) return;
    vp_eqi((long)r.size(), x.k, "read.size");
    vp_eqi(r.im(), 0, "read.shape");
    for (int i = 0; i < x.k; i++) vp_eq(r[i], (double)d[x.p[i] - 1], id);
    auto s = v(idx); // the other spelling, lazily
    vp_eqi((long)s.size(), x.k, "read.lazy_size");
    for (int i = 0; i < x.k; i++) { const auto &cs = s; vp_eq((double)cs[i], (double)d[x.p[i] - 1], "read.lazy"); }
  });
  vp_eqi((long)v.size(), n, "read.source_size");
  for (int i = 0; i < n; i++) vp_eq((double)v[i], (double)d[i], "read.source");
}
template <int TK> void readVar(int kind) {
  int n = vp_pick(vp_int(1, NMAX));
  if constexpr (TK == 0) { sexp v = vector_numeric(n); double d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; } read(v, d, n, kind, "read.num"); }
  if constexpr (TK == 1) { Vec<int> v(SI{n}); int d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_int(-30000, 30000); v[i] = d[i]; } read(v, d, n, kind, "read.int"); }
  if constexpr (TK == 2) { Vec<bool> v(SI{n}); bool d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_bool(); v[i] = d[i]; } read(v, d, n, kind, "read.lgl"); }
  if constexpr (TK == 3) { double raw[NMAX], d[NMAX]; for (int i = 0; i < n; i++) raw[i] = d[i] = vp_double(); Vec<double, Borrow<double>> v(raw, (std::size_t)n); read(v, d, n, kind, "read.borrow"); }
}
