// BOUND: x of every operand form, length 1..3 (5 thorough); counts any int in -1000..3 (5 thorough), any double from NaN and below up to 4 (6), of every form
// OUTSIDE: counts above the bound; infinite counts
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int CMAX = 5;
#else
constexpr int CMAX = 3;
#endif
template <typename T> const T &ro(const T &t) { return t; }
constexpr int COUNTS = 12;
// an invalid count stays symbolic, a valid one becomes concrete
static int cnt() { int c = vp_int(-1000, CMAX); return vp_pick(c < 1) ? c : vp_pick(c); }
static double cntd() { double d = vp_frac(-1000, CMAX); int c = (int)d; if (!vp_pick(c < 1)) vp_pick(c); return d; }
// f(count object, its value)
template <unsigned MASK, typename F> void withCount(int kind, F f) {
  switch (kind) {
  case 0: if constexpr (MASK >> 0 & 1) { int c = cnt(); f(c, c); vp_eqi(c, c, "rep.count"); } break;
  case 1: if constexpr (MASK >> 1 & 1) { double c = cntd(), o = c; f(c, (int)c); vp_eq(c, o, "rep.count"); } break;
  case 2: if constexpr (MASK >> 2 & 1) { int c = vp_pick(vp_int(0, CMAX)); std::size_t z = (std::size_t)c; f(z, c); } break;
  case 3: if constexpr (MASK >> 3 & 1) { bool c = vp_bool(); f(c, (int)c); } break;
  case 4: if constexpr (MASK >> 4 & 1) { int c = cnt(); Vec<int> v; v = coca(c); f(v, c); vp_eqi(v[0], c, "rep.count"); vp_eqi((long)v.size(), 1, "rep.countsize"); } break;
  case 5: if constexpr (MASK >> 5 & 1) { double c = cntd(); sexp v; v = coca(c); f(v, (int)c); vp_eq(v[0], c, "rep.count"); } break;
  case 6: if constexpr (MASK >> 6 & 1) { int c = cnt(), o = vp_int(1, 9); Vec<int> v; v = coca(c, o, 3); f(v, c); vp_eqi(v[1], o, "rep.count"); vp_eqi((long)v.size(), 3, "rep.countsize"); } break; // only the first counts
  case 7: if constexpr (MASK >> 7 & 1) { int c = cnt(); f(coca(c), c); } break;
  case 8: if constexpr (MASK >> 8 & 1) { int o = vp_pick(vp_int(-1, 1)), c = cnt(); Vec<int> v; v = coca(c - o); f(ro(v + o), c); } break;
  case 9: if constexpr (MASK >> 9 & 1) { int c = cnt(), o = vp_int(1, 2); Vec<int> v, i; v = coca(o == 1 ? c : 7, o == 2 ? c : 7); i = coca(o); f(ro(subset(v, i)), c); } break;
  case 10: if constexpr (MASK >> 10 & 1) { double r[2] = {cntd(), 2.0}; int c = (int)r[0]; { Vec<double, Borrow<double>> v(r, 1); f(v, c); } } break;
  case 11: if constexpr (MASK >> 11 & 1) { double c = vp_double(); vp_assume(!(c >= 1.0)); f(c, 0); } break; // anything not at least one, NaN included
  }
}
template <typename T> struct IsScalar { static constexpr bool v = std::is_arithmetic_v<std::remove_cvref_t<T>>; };
template <unsigned MC> void reps(int kind, int ck) {
  int n = vp_pick(vp_int(1, NMAX)); Side<true> s(n);
  operand(kind, s, [&](const auto &x, auto at, int len) {
    int m = len ? len : 1;
    withCount<MC>(ck, [&](const auto &cnt, int c) {
      using T = std::remove_cvref_t<decltype(at(0))>;
      Vec<T> q; bool t = vp_throws([&] { q = rep(x, cnt); });
      vp_eqi(t, c < 1, "rep.error");
      if (t) return;
      c = vp_pick(c);
      vp_eqi((long)q.size(), m * c, "rep.size"); vp_eqi(q.im(), 0, "rep.matrix");
      for (int i = 0; i < m * c; i++) vp_eq((double)q[i], (double)at(i % m), "rep.elem");
      if constexpr (!IsScalar<decltype(x)>::v) { vp_eqi((long)x.size(), m, "rep.argsize"); for (int i = 0; i < m; i++) vp_eq((double)x[i], (double)at(i), "rep.arg"); }
      else vp_eq((double)x, (double)at(0), "rep.arg");
    });
  });
}
#define REP(ck) VP_HARNESS(count_##ck) { int kind = vp_pick(vp_int(0, KINDS - 1)); reps<1u << ck>(kind, ck); }
