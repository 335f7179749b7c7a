// BOUND: both endpoints any int in -1e9..1e9 (or exactly that value as a double) at most 4 apart (7 thorough) in either direction; fractional endpoints: any two doubles with distance below 3 (floating point formula), and all pairs of multiples of 1/4 in -1.5..1.5 against exact integers
// OUTSIDE: double endpoints further than 2^31 apart, NaN and infinite endpoints; logical endpoints
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int DIST = 7;
#else
constexpr int DIST = 4;
#endif
// An endpoint of value x in every form; the first element counts. e: filler behind it
constexpr int ENDS = 9;
template <typename T> const T &ro(const T &t) { return t; }
template <unsigned MASK, typename T, typename F> void endpoint(int kind, T x, F f) {
  switch (kind) {
  case 0: if constexpr (MASK >> 0 & 1) f(x); break; // scalar variable
  case 1: if constexpr (MASK >> 1 & 1) { Vec<T> v; v = coca(x); f(v); vp_eq(v[0], x, "colon.arg"); vp_eqi(v.size(), 1, "colon.argsize"); } break; // variable
  case 2: if constexpr (MASK >> 2 & 1) { const Vec<T> v(coca(x)); f(v); } break;
  case 3: if constexpr (MASK >> 3 & 1) { Vec<T> v; v = coca(x, T(7), T(9)); f(v); vp_eq(v[0], x, "colon.arg"); vp_eqi(v.size(), 3, "colon.argsize"); } break; // first element of several
  case 4: if constexpr (MASK >> 4 & 1) { f(ro(coca(x))); } break; // temporary
  case 5: if constexpr (MASK >> 5 & 1) { T r[2] = {x, T(3)}; { Vec<T, Borrow<T>> b(r, 1); f(b); } vp_eq(r[0], x, "colon.arg"); } break;
  case 6: if constexpr (MASK >> 6 & 1) { Vec<T> v; v = coca(T(5), x, T(6)); int q = 2; T z = 0; f(ro(subset(v, q) + z)); } break;
  case 7: if constexpr (MASK >> 7 & 1) { Vec<T> v; v = coca(T(-x)); f(ro(-v)); } break; // expression
  case 8: if constexpr (MASK >> 8 & 1) { Vec<T> v; v = coca(x); T z = 0; f(ro(v + z)); } break;
  }
}
template <typename R> void expectSeq(const R &q, double a, int n, int up, const char *id) {
  vp_eqi((long)q.size(), n, "colon.size"); vp_eqi(q.im(), 0, "colon.matrix");
  sexp s; s = q; vp_eqi((long)s.size(), n, "colon.stored");
  for (int i = 0; i < n; i++) vp_eq(s[i], up ? a + (double)i : a - (double)i, id);
}
template <unsigned MA, unsigned MB, typename A, typename B> void whole(int ka, int kb) {
  int a = vp_int(-1000000000, 1000000000), k = vp_pick(vp_int(-DIST, DIST)); int b = a + k; int n = k < 0 ? -k : k;
  endpoint<MA>(ka, A(a), [&](auto &&x) { endpoint<MB>(kb, B(b), [&](auto &&y) {
    auto q = colon(x, y);
    static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(q[0])>, std::common_type_t<A, B>>);
    vp_eqi((long)q.size(), n + 1, "colon.size"); vp_eqi(q.im(), 0, "colon.matrix");
    for (int i = 0; i <= n; i++) { if constexpr (std::is_same_v<std::common_type_t<A, B>, int>) vp_eqi(q[i], k >= 0 ? a + i : a - i, "colon.elem"); else vp_eq(q[i], (double)(k >= 0 ? a + i : a - i), "colon.elem"); }
  }); });
}
