// BOUND: variables of length 1..3 (5 thorough), index vectors of 1..3 entries, logical indices of length 1..n+1, right hand sides of length 1..n+1
// OUTSIDE: the elements left behind by a write that fails because a selected position does not exist (an error is required, and that other variables and the length stay)
#include "index.h"
// conversion of a stored element
template <typename T> T cv(double x) { return static_cast<T>(x); }
template <typename V, typename T> void write(V &v, T *d, int n, int kind, int rk) {
  Idx x;
  sexp w; double rv[12]; double s; int is; bool bs;
  auto after = [&](const char *id) {
    vp_eqi((long)v.size(), n, "write.size"); vp_eqi(v.im(), 0, "write.shape");
    for (int i = 0; i < n; i++) vp_eq((double)v[i], (double)d[i], id);
  };
  withIndex(kind, x, n, [&](const auto &idx) {
    if (bad(x, n)) { // an error; with one index nothing changes
      double t = vp_real(-1000, 1000);
      vp_check(vp_throws([&] { subset(v, idx) = t; }), "write.error");
      vp_eqi((long)v.size(), n, "write.error_size");
      if (x.k <= 1) after("write.error_elem");
      for (int i = 0; i < n; i++) d[i] = v[i];
      return;
    }
    T old[NMAX]; for (int i = 0; i < n; i++) old[i] = d[i];
    switch (rk) {
    case 0: s = vp_real(-1000, 1000); subset(v, idx) = s; for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = cv<T>(s); after("write.scalar"); break;
    case 1: is = vp_int(-100, 100); v(idx) = is; for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = cv<T>(is); after("write.int"); break;
    case 2: bs = vp_bool(); subset(v, idx) = bs; for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = bs; after("write.lgl"); break;
    case 3: { // a vector of any length
      int m = vp_pick(vp_int(1, NMAX + 1)); w = vector_numeric(m);
      for (int i = 0; i < m; i++) { rv[i] = std::is_same_v<T, int> ? (double)vp_int(-1000, 1000) : vp_real(-1000, 1000); w[i] = rv[i]; }
      bool t = vp_throws([&] { subset(v, idx) = w; });
      vp_eqi(t, m != x.k, "write.mismatch");
      if (m == x.k) for (int i = 0; i < m; i++) d[x.p[i] - 1] = cv<T>(rv[i]);
      after(m == x.k ? "write.vec" : "write.mismatch_elem");
      vp_eqi((long)w.size(), m, "write.rhs_size"); for (int i = 0; i < m; i++) vp_eq(w[i], rv[i], "write.rhs");
      break; }
    case 4: { // the same variable, reversed, as an expression
      if (x.k != n) { vp_check(vp_throws([&] { v(idx) = subset(v, colon(n, 1)) + 1; }), "write.self_mismatch"); after("write.self_mismatch_elem"); break; }
      v(idx) = subset(v, colon(n, 1)) + 1;
      for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = static_cast<T>(old[n - 1 - i] + 1);
      if constexpr (!std::is_same_v<T, bool>) after("write.self"); break; }
    case 5: { // a subset of the same variable by an arbitrary index
      Vec<int> o(SI{x.k}); int q[12]; for (int i = 0; i < x.k; i++) { q[i] = vp_int(1, n); o[i] = q[i]; }
      subset(v, idx) = subset(v, o);
      for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = old[q[i] - 1];
      after("write.overlap"); break; }
    case 6: { // a temporary
      s = std::is_same_v<T, int> ? (double)vp_int(-1000, 1000) : vp_real(-1000, 1000);
      bool t = vp_throws([&] { subset(v, idx) = coca(s, v); });
      vp_eqi(t, x.k != n + 1, "write.temp_mismatch");
      if (!t) for (int i = 0; i < x.k; i++) d[x.p[i] - 1] = i ? old[i - 1] : cv<T>(s);
      after("write.temp"); break; }
    }
  });
}
constexpr int RK = 7;
template <int TK> void writeVar(int kind, int lo = 0, int hi = RK - 1) {
  int n = vp_pick(vp_int(1, NMAX)); int rk = vp_pick(vp_int(lo, hi));
  if constexpr (TK == 0) { sexp v = vector_numeric(n); double d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; } write(v, d, n, kind, rk); }
  if constexpr (TK == 1) { Vec<int> v(SI{n}); int d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_int(-30000, 30000); v[i] = d[i]; } write(v, d, n, kind, rk); }
  if constexpr (TK == 2) { Vec<bool> v(SI{n}); bool d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_bool(); v[i] = d[i]; } write(v, d, n, kind, rk); }
  if constexpr (TK == 3) { double raw[NMAX + 1], d[NMAX]; for (int i = 0; i < n; i++) raw[i] = d[i] = vp_double(); raw[n] = 7.0; { Vec<double, Borrow<double>> v(raw, (std::size_t)n); write(v, d, n, kind, rk); } for (int i = 0; i < n; i++) vp_eq(raw[i], d[i], "write.borrowed"); vp_eq(raw[n], 7.0, "write.behind"); }
}
