// BOUND: three variables and a vector of constants of lengths 1..3 each (recycled against one another; 2,3,4 in their own entry), each variable as independent one, set by constants or by initBuffer; every target; 32 forms of expressions over + - * / sinus and comparisons up to three operators; up to three assignments in a row (thorough: four); values in [-10,10], divisors in [1,10] or [-10,-1], signs in four patterns
// BOUND: a further family with two buffered and two borrowed variables of lengths 1..3, any of the four being independent, 16 forms, up to two (thorough: three) assignments
// OUTSIDE: unary minus and other unary functions, power, subsets and matrices in derivative expressions (do not compile); rounding errors of derivatives; re-initialising variables with initBuffer after derivatives were taken
#include "etr_inc.h"
#include <cmath>
// Oracle: pairs of value and derivative
struct Du { double v, d; };
static inline Du operator+(Du a, Du b) { return {a.v + b.v, a.d + b.d}; }
static inline Du operator-(Du a, Du b) { return {a.v - b.v, a.d - b.d}; }
static inline Du operator*(Du a, Du b) { return {a.v * b.v, a.d * b.v + b.d * a.v}; }
static inline Du operator/(Du a, Du b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
static inline Du sinus(Du a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
static inline Du cmp_(bool q) { return {(double)q, 0}; }
static inline Du operator==(Du a, Du b) { return cmp_((a.v == b.v) | (std::fabs(a.v - b.v) < 1e-3)); }
static inline Du operator!=(Du a, Du b) { return cmp_(!((a.v == b.v) | (std::fabs(a.v - b.v) < 1e-3))); }
static inline Du operator<(Du a, Du b) { return cmp_(a.v < b.v); }
static inline Du operator<=(Du a, Du b) { return cmp_(a.v <= b.v); }
static inline Du operator>(Du a, Du b) { return cmp_(a.v > b.v); }
static inline Du operator>=(Du a, Du b) { return cmp_(a.v >= b.v); }
constexpr int DN = 4;
struct DV { int n = 0; Du e[DN]; Du operator()(int i) const { return e[i % n]; } };
using AV = etr::AllVars<3, 0, 0, 4>;
template <int I> using DVar = etr::Vec<double, etr::VarPointer<AV, I, 0>, etr::VariableTypeTrait>;
struct DW {
  AV av; int indep, pat = 0, cnt = 0; DVar<0> a; DVar<1> b; DVar<2> c; DV m[3], K, S, S2; // model
  explicit DW(int ind) : av(ind, 0), indep(ind), a(av), b(av), c(av) {}
  auto k() { return K.n == 1 ? etr::coca<0>(av, K.e[0].v) : K.n == 2 ? etr::coca<0>(av, K.e[0].v, K.e[1].v) : K.n == 3 ? etr::coca<0>(av, K.e[0].v, K.e[1].v, K.e[2].v) : etr::coca<0>(av, K.e[0].v, K.e[1].v, K.e[2].v, K.e[3].v); }
  // divisors: the signs follow one of four patterns
  void sign(double &lo, double &hi) { if (lo > 0) { int s = (pat == 1) | ((pat == 2) & (cnt & 1)) | ((pat == 3) & !(cnt & 1)); cnt++; if (s) { double l = lo; lo = -hi; hi = -l; } } }
  void fillK(int n, double lo, double hi) { sign(lo, hi); K.n = n; for (int i = 0; i < n; i++) K.e[i] = {vp_real(lo, hi), 0}; }
  template <int J> void byConst() { auto set = [&](auto &t) { t = k(); m[J] = K; if (J == indep) for (int i = 0; i < K.n; i++) m[J].e[i].d = 1; }; if constexpr (J == 0) set(a); else if constexpr (J == 1) set(b); else set(c); }
  void init(int na, int nb, int nc, double lo, double hi) { fillK(na, lo, hi); byConst<0>(); fillK(nb, lo, hi); byConst<1>(); fillK(nc, lo, hi); byConst<2>(); }
  void initB(int na, int nb, int nc, double lo, double hi) { sexp x[3]; int n[3] = {na, nb, nc}; for (int j = 0; j < 3; j++) { x[j] = etr::vector_numeric(int(n[j])); m[j].n = n[j]; double l = lo, h = hi; sign(l, h); for (int i = 0; i < n[j]; i++) { m[j].e[i] = {vp_real(l, h), j == indep ? 1. : 0.}; x[j][i] = m[j].e[i].v; } } av.initBuffer(x[0], x[1], x[2]); }
  void consts(int nk, double lo, double hi) { fillK(nk, lo, hi); sign(lo, hi); S.n = 1; S.e[0] = {vp_real(lo, hi), 0}; S2.n = 1; S2.e[0] = {vp_real(lo, hi), 0}; }
  template <typename V> void check1(V &v, const DV &w) {
    vp_eqi((long)v.size(), w.n, "deriv.size"); auto q = v.d.get(); auto d = etr::get_derivs(v);
    vp_eqi((long)q.size(), w.n, "deriv.valsize"); vp_eqi((long)d.size(), w.n, "deriv.dsize");
    for (int i = 0; i < w.n; i++) { vp_eq(q[i], w.e[i].v, "deriv.value"); vp_close(d[i], w.e[i].d, "deriv.deriv"); } }
  void check() { check1(a, m[0]); check1(b, m[1]); check1(c, m[2]); }
};
// one node of the model: recycled elementwise
template <typename F> DV zip(const DV &x, const DV &y, F f) { DV r; r.n = x.n > y.n ? x.n : y.n; for (int i = 0; i < r.n; i++) r.e[i] = f(x(i), y(i)); return r; }
#define DVOP(op) static inline DV operator op(const DV &x, const DV &y) { return zip(x, y, [](Du p, Du q) { return p op q; }); }
DVOP(+) DVOP(-) DVOP(*) DVOP(/) DVOP(==) DVOP(!=) DVOP(<) DVOP(<=) DVOP(>) DVOP(>=)
static inline DV sinus(const DV &x) { DV r; r.n = x.n; for (int i = 0; i < r.n; i++) r.e[i] = sinus(x.e[i]); return r; }
template <typename T, typename V> void put(T &t, V &&v) { if constexpr (!std::is_same_v<T, std::remove_cvref_t<V>>) t = std::forward<V>(v); } // c = c does not compile
// an expression form k: evaluated by the library into t (variable J) and by the model
#define F(NN, ...) case NN: if constexpr (MASK >> NN & 1) { { using etr::sinus; auto &a = w.a; auto &b = w.b; auto &c = w.c; auto K = [&] { return w.k(); }; auto S = [&] { return etr::scalarDeriv<1>(w.av, w.S.e[0].v); }; auto S2 = [&] { return etr::scalarDeriv<2>(w.av, w.S2.e[0].v); }; put(t, __VA_ARGS__); } \
  { const DV &a = w.m[0], &b = w.m[1], &c = w.m[2]; auto K = [&] { return w.K; }; auto S = [&] { return w.S; }; auto S2 = [&] { return w.S2; }; r = __VA_ARGS__; } } break;
template <int J, unsigned long MASK, typename T> void form(DW &w, T &t, int f) {
  DV r;
  switch (f) {
    F(0, a + b) F(1, a - b) F(2, a * b) F(3, a * a) F(4, sinus(a)) F(5, c) F(6, a)
    F(7, a * S()) F(8, S() * b) F(9, K() * a) F(10, b * K()) F(11, a + K()) F(12, S() - c) F(13, K() - b)
    F(14, a * b * c) F(15, (a + b) * (b - c)) F(16, sinus(a * b)) F(17, sinus(a) * sinus(b)) F(18, a * b + b * c) F(19, a - (b - c)) F(20, a * S() + b * S2()) F(21, sinus(sinus(a)) + K())
    F(22, a / b) F(23, a / S()) F(24, S() / a) F(25, a / (b * c)) F(26, (a - b) / c) F(27, a / K()) F(28, K() / b) F(29, a * b / S()) F(30, a / b * c)  F(31, sinus(a / b))
    F(32, a == b) F(33, a != b) F(34, a < b) F(35, a <= b) F(36, a > b) F(37, a >= b) F(38, a < S()) F(39, (a > b) * c) F(40, (a <= c) * a + b)
  }
  w.m[J] = r;
}
template <unsigned long MASK> void target(DW &w, int j, int f) { switch (j) { case 0: form<0, MASK>(w, w.a, f); break; case 1: form<1, MASK>(w, w.b, f); break; case 2: form<2, MASK>(w, w.c, f); break; } }
constexpr int NF = 41;
template <unsigned long MASK> int pickForm() { int k = 0, idx[NF]; for (int i = 0; i < NF; i++) if (MASK >> i & 1) idx[k++] = i; return idx[vp_pick(vp_int(0, k - 1))]; }
template <unsigned long MASK> void one(int lo, int hi, bool bufinit, int nmax) {
  DW w(vp_pick(vp_int(0, 2))); if (lo > 0) w.pat = vp_pick(vp_int(0, 3)); int n[4]; for (int i = 0; i < 4; i++) n[i] = nmax == 1 || i == 2 ? 2 : vp_pick(vp_int(1, nmax));
  if (bufinit) w.initB(n[0], n[1], n[2], lo, hi); else w.init(n[0], n[1], n[2], lo, hi);
  w.consts(n[3], lo, hi); int j = vp_pick(vp_int(0, 2)); int f = pickForm<MASK>(); target<MASK>(w, j, f); w.check();
}
constexpr unsigned long LIN = 0xffful | 3ul << 12, MUL = 0xfful << 14, DIV = 0x3fful << 22, CMP = 0x1fful << 32;
