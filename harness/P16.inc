// BOUND: vector sizes 1..6 (10 thorough) and any invalid size (int from -2^31, any double below 1, NaN); matrices up to 4x4 cells with dimensions of all numeric types, valid and invalid; data of every operand form
// OUTSIDE: sizes above the bound (allocation of huge vectors)
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int SMAX = 10;
#else
constexpr int SMAX = 6;
#endif
constexpr int IMIN = -2147483647 - 1;
static int size_() { int c = vp_int(IMIN, SMAX); return vp_pick(c < 1) ? c : vp_pick(c); }
template <typename T> const T &ro(const T &t) { return t; }
constexpr int NUM = 0, INT = 1, LGL = 2;
// call with the size given as s; n: its value
template <int W, typename S> void alloc(S &s, int n) {
  sexp v; bool t = vp_throws([&] { if constexpr (W == NUM) v = vector_numeric(s); else if constexpr (W == INT) v = vector_integer(s); else v = vector_logical(s); });
  vp_eqi(t, n < 1, "alloc.error"); if (t) return;
  vp_eqi((long)v.size(), n, "alloc.size"); vp_eqi(v.im(), 0, "alloc.matrix");
  for (int i = 0; i < n; i++) vp_eq(v[i], 0.0, "alloc.zero");
  double d[SMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; } for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "alloc.write");
  vp_check(vp_throws([&] { v[n] = 1.0; }), "alloc.behind");
}
template <int W> void sizes() {
  int k = vp_pick(vp_int(0, 10));
  if (k == 0) { int n = size_(); alloc<W>(n, n); }
  if (k == 1) { const int n = size_(); alloc<W>(n, n); }
  if (k == 2) { double d = vp_frac(-1000000, SMAX); int n = (int)d; if (!vp_pick(n < 1)) n = vp_pick(n); alloc<W>(d, n); }
  if (k == 3) { const double d = vp_double(); vp_assume(!(d >= 1.0)); alloc<W>(d, 0); }
  if (k == 4) { int c = vp_pick(vp_int(0, SMAX)); std::size_t n = (std::size_t)c; alloc<W>(n, c); const std::size_t n2 = n; alloc<W>(n2, c); }
  if (k == 5) { bool b = vp_pick(vp_int(0, 1)); alloc<W>(b, b); }
  if (k == 6) { int n = size_(); Vec<int> s; s = coca(n); alloc<W>(s, n); const Vec<int> s2(coca(n)); alloc<W>(s2, n); vp_eqi(s[0], n, "alloc.arg"); }
  if (k == 7) { int n = size_(); sexp s; s = coca((double)n); alloc<W>(s, n); double z = 0; alloc<W>(ro(s + z), n); alloc<W>(ro(-(-s)), n); }
  if (k == 8) { int n = vp_int(1, 4), m = vp_int(1, 4); Vec<int> s; s = coca(n, m); alloc<W>(s, 0); alloc<W>(ro(s + m), 0); } // more than one size
  if (k == 9) { int n = size_(); double r[2] = {(double)n, 5.0}; { const Vec<double, Borrow<double>> b(r, 1); alloc<W>(b, n); } vp_eq(r[0], (double)n, "alloc.arg"); }
  if (k == 10) { int n = size_(); Vec<int> s; s = coca(n); int z = 0; alloc<W>(ro(s + z), n); alloc<W>(ro(coca(n)), n); }
}
// a matrix from data: x in every form, dimensions r, c
template <typename M, typename A> void expectM(const M &m0, int r, int c, A at, const char *id) {
  vp_eqi((long)m0.size(), r * c, "matrix.size"); vp_eqi(m0.im(), 1, "matrix.is"); vp_eqi((long)m0.nr(), r, "matrix.rows"); vp_eqi((long)m0.nc(), c, "matrix.cols");
  for (int i = 0; i < r * c; i++) vp_eq((double)m0[i], (double)at(i), id);
}
template <unsigned M, typename R, typename C> void fromData(int r, int c) {
  int k = vp_pick(vp_int(0, KINDS - 1)); vp_assume(M >> k & 1); int n = vp_pick(vp_int(1, NMAX)); Side<true> s(n);
  bool badDim = (r < 1) | (c < 1);
  operandM<M>(k, s, [&](const auto &x, auto at, int len) {
    using T = std::remove_cvref_t<decltype(x)>; constexpr bool scalar = std::is_arithmetic_v<T>;
    bool t = false;
    auto go = [&](auto &&m) { if constexpr (scalar) expectM(m, r, c, [&](int) { return at(0); }, "matrix.scalar"); else expectM(m, r, c, at, "matrix.elem");
      using E = std::remove_cvref_t<decltype(at(0))>; Vec<E> st; st = m; if constexpr (scalar) expectM(st, r, c, [&](int) { return at(0); }, "matrix.stored"); else expectM(st, r, c, at, "matrix.stored"); };
    t = vp_throws([&] { if constexpr (scalar) go(matrix(T(x), R(r), C(c))); else go(matrix(std::move(x), R(r), C(c))); });
    vp_eqi(t, scalar ? badDim : badDim | (r * c != len), "matrix.error");
    if constexpr (!scalar) { vp_eqi((long)x.size(), len, "matrix.argsize"); for (int i = 0; i < len; i++) vp_eq((double)x[i], (double)at(i), "matrix.arg"); }
  });
}
static void dim_(int &r, int &c, int lo) { r = vp_pick(vp_int(lo, 4)); c = vp_pick(vp_int(lo, 4)); vp_assume(r * c <= 2 * NMAX); }
