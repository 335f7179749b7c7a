// BOUND: all trees of an outer operation over two inner operations (16 outer x 12 x 6 inner ones) and trees of depth 3 over a smaller set, over numeric, integer and logical vectors of lengths 1..3, a matrix and a scalar; every double, integers up to 30000 in magnitude; results assigned to a new variable and to an operand of the expression itself
// OUTSIDE: subsets of unary operations and of expressions, isNA of unary operations and subsets (do not compile); deeper trees
#include "etr_inc.h"
using namespace etr;
struct P {
  int n, m; sexp a, b, mat; Vec<int> ai, idx; Vec<bool> ab; double x;
  P(int n_, int m_) : n(n_), m(m_), ai(SI{n_}), idx(SI{2}), ab(SI{n_}) {
    a = vector_numeric(int(n)); b = vector_numeric(int(m)); for (int i = 0; i < n; i++) a[i] = vp_double(); for (int i = 0; i < m; i++) b[i] = vp_double();
    for (int i = 0; i < n; i++) { ai[i] = vp_int(-30000, 30000); ab[i] = vp_bool(); } x = vp_double(); idx[0] = vp_int(1, n); idx[1] = vp_int(1, n); }
  // matrix variables in place of the vectors
  void matrices() { a = matrix(std::move(a), 1, int(n)); b = a * x; m = n; }
};
static inline int lens(int k) { static const int L[5] = {22, 13, 32, 31, 11}; return L[k]; }
// inner operations; S and the rest differ so that both sides are distinct
template <int I, bool SWAP> auto inner(P &p) {
  auto &a = SWAP ? p.b : p.a; auto &b = SWAP ? p.a : p.b; const double &x = p.x;
  if constexpr (I == 0) return a + b; else if constexpr (I == 1) return a * x; else if constexpr (I == 2) return -a; else if constexpr (I == 3) return coca(a, b); else if constexpr (I == 4) return a < b; else if constexpr (I == 5) return x / a;
  else if constexpr (I == 6) return subset(p.a, p.idx); else if constexpr (I == 7) return rep(a, 2); else if constexpr (I == 8) return sinus(a); else if constexpr (I == 9) return p.ai + a; else if constexpr (I == 10) return a == b; else if constexpr (I == 11) return p.ab - b;
}
// the outer operation is expanded in place: temporaries live until the end of the full expression
#define OUTER(T, X, Y) \
  if constexpr (O == 0) T = X + Y; else if constexpr (O == 1) T = X - Y; else if constexpr (O == 2) T = X * Y; else if constexpr (O == 3) T = X / Y; else if constexpr (O == 4) T = X < Y; else if constexpr (O == 5) T = X != Y; \
  else if constexpr (O == 6) T = coca(X, Y); else if constexpr (O == 7) T = -(X + Y); else if constexpr (O == 8) T = sinus(X * Y); else if constexpr (O == 9) T = rep(X - Y, 2); else if constexpr (O == 10) T = X >= Y; else if constexpr (O == 11) T = (X + 1.0) * (2.0 - Y); \
  else if constexpr (O == 12) T = coca(X, 3.0, Y) - X; else if constexpr (O == 13) T = (X < Y) * X; else if constexpr (O == 14) T = X * (Y / (X + 4.0)); else if constexpr (O == 15) T = coca(X + Y, -Y);
template <int I> constexpr bool LGL = I == 4 || I == 10;
template <int I> using Var = std::conditional_t<LGL<I>, Vec<bool>, sexp>; // intermediate results keep their type
static void same(const sexp &t, const sexp &r, const char *id) {
  vp_eqi((long)t.size(), (long)r.size(), id); vp_eqi(t.im(), r.im(), id); if (r.im()) { vp_eqi((long)t.nr(), (long)r.nr(), id); vp_eqi((long)t.nc(), (long)r.nc(), id); }
  for (int i = 0; i < (int)r.size(); i++) vp_eq(t[i], r[i], id);
}
template <int O, int I, int J> void tree(P &p) {
  Var<I> l; Var<J> q; sexp r, t; int order = vp_pick(vp_int(0, 1));
#define L_ inner<I, false>(p)
#define R_ inner<J, true>(p)
  if (order) { l = L_; q = R_; } else { q = R_; l = L_; }
  OUTER(r, l, q) OUTER(t, L_, R_) same(t, r, "compound.nested");
  OUTER(t, l, R_) same(t, r, "compound.right"); OUTER(t, L_, q) same(t, r, "compound.left");
  if (order) { OUTER(p.a, L_, R_) } else { OUTER(p.b, L_, R_) } same(order ? p.a : p.b, r, "compound.target");
}
template <int O, int I, int J = 0> void pickJ(P &p, int j) { if constexpr (J < 6) { if (j == J) tree<O, I, J == 4 ? 6 : J == 5 ? 4 : J>(p); else pickJ<O, I, J + 1>(p, j); } }
template <int O, int I = 0> void pickI(P &p, int i, int j) { if constexpr (I < 12) { if (i == I) pickJ<O, I>(p, j); else pickI<O, I + 1>(p, i, j); } }
template <int O> void trees() { int k = lens(vp_pick(vp_int(0, 4))); P p(k / 10, k % 10); int i = vp_pick(vp_int(0, 11)), j = vp_pick(vp_int(0, 5)); pickI<O>(p, i, j); }
