// OUTSIDE: the elements left behind by a write that fails because a selected position does not exist (an error is required, and that the shape stays)
#include "P10.inc"
#ifdef VP_THOROUGH
#define RHS_HI 6
#else
#define RHS_HI 3
#endif
// rk: 0 double scalar, 1 int scalar / call syntax, 2 vector of the right or a wrong length, 3 cells of the same matrix, 4 logical scalar, 5 expression, 6 temporary
template <typename T, unsigned MR = ~0u, unsigned MCL = ~0u, typename V> void writeM(V &m, T *d, int r, int c, int rk, int ck, int k, double lim = 1e6) {
  Idx x, y;
  auto after = [&](const char *id) {
    vp_eqi((long)m.size(), r * c, "mwrite.size"); vp_eqi(m.im(), 1, "mwrite.matrix"); vp_eqi((long)m.nr(), r, "mwrite.rows"); vp_eqi((long)m.nc(), c, "mwrite.cols");
    for (int i = 0; i < r * c; i++) vp_eq((double)m[i], (double)d[i], id);
  };
  auto num = [&] { return std::is_same_v<T, int> ? (double)vp_int(-1000, 1000) : lim < 0 ? vp_double() : vp_real(-lim, lim); };
  withIndex<MR>(rk, x, r, [&](const auto &ri) {
    withIndex<MCL>(ck, y, c, [&](const auto &ci) {
      const int s = x.k * y.k;
      auto put = [&](int q, T v) { long p = (y.p[q / x.k] - 1) * r + x.p[q % x.k] - 1; d[p] = v; };
      if (bad(x, r) | bad(y, c) | x.tooLong | y.tooLong) {
        double t = num();
        vp_check(vp_throws([&] { subset(m, ri, ci) = t; }), "mwrite.error");
        vp_eqi((long)m.size(), r * c, "mwrite.error_size"); vp_eqi((long)m.nr(), r, "mwrite.error_rows"); vp_eqi((long)m.nc(), c, "mwrite.error_cols");
        if (x.k <= 1 && y.k <= 1) after("mwrite.error_elem");
        return;
      }
      if (k == 0) { double t = num(); subset(m, ri, ci) = t; for (int i = 0; i < s; i++) put(i, (T)t); after("mwrite.scalar"); }
      if (k == 1) { int t = vp_int(-100, 100); m(ri, ci) = t; for (int i = 0; i < s; i++) put(i, (T)t); after("mwrite.int"); }
      if (k == 4) { bool t = vp_bool(); subset(m, ri, ci) = t; for (int i = 0; i < s; i++) put(i, (T)t); after("mwrite.lgl"); }
      if (k == 2) {
        int n = s + vp_pick(vp_int(s > 1 ? -1 : 0, 1));
        sexp w = vector_numeric(n); double v[MC + 4];
        for (int i = 0; i < n; i++) { v[i] = num(); w[i] = v[i]; }
        bool t = vp_throws([&] { subset(m, ri, ci) = w; });
        vp_eqi(t, n != s, "mwrite.mismatch");
        if (n == s) for (int i = 0; i < s; i++) put(i, (T)v[i]);
        after(n == s ? "mwrite.vec" : "mwrite.mismatch_elem");
        vp_eqi((long)w.size(), n, "mwrite.rhs_size"); for (int i = 0; i < n; i++) vp_eq(w[i], v[i], "mwrite.rhs");
      }
      if (k == 3) { // cells of the same matrix: all of them, in reversed order
        T old[MC]; for (int i = 0; i < r * c; i++) old[i] = d[i];
        bool t = vp_throws([&] { subset(m, ri, ci) = m(colon(r, 1), colon(c, 1)); });
        vp_eqi(t, s != r * c, "mwrite.self_mismatch");
        if (!t) for (int i = 0; i < s; i++) put(i, old[r * c - 1 - i]);
        after("mwrite.self");
      }
      if (k == 5) { T old[MC]; for (int i = 0; i < r * c; i++) old[i] = d[i];
        bool t = vp_throws([&] { m(ri, ci) = m + 1; });
        vp_eqi(t, s != r * c, "mwrite.expr_mismatch");
        if (!t) for (int i = 0; i < s; i++) put(i, (T)(old[i] + 1));
        if constexpr (!std::is_same_v<T, bool>) after("mwrite.expr"); }
      if (k == 6) { double t = num(); Vec<T> o; o = subset(m, 1); T e = d[0];
        bool f = vp_throws([&] { m(ri, ci) = coca(t, m(1, 1)); });
        vp_eqi(f, s != 2, "mwrite.temp_mismatch");
        if (!f) { put(0, (T)t); put(1, e); }
        after("mwrite.temp"); }
    });
  });
}
template <unsigned MR, unsigned MCL> static void writeNum(int rk, int ck, int lo = 0, int hi = RHS_HI) {
  int r, c; dims(r, c); int k = vp_pick(vp_int(lo, hi));
  double d[MC]; sexp m; m = mkM(r, c, d);
  writeM<double, MR, MCL>(m, d, r, c, rk, ck, k, -1);
}
#define WRITE(rk, ck) writeNum<1u << (rk), 1u << (ck)>(rk, ck)
