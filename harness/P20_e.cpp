#include "P20.inc"
// variables that borrow their memory, next to buffered ones: any of the four is the independent one
using BV = etr::AllVars<2, 2, 0, 4>;
template <int I, int T> using KVar = etr::Vec<double, etr::VarPointer<BV, I, T>, etr::VariableTypeTrait>;
struct BW {
  double x[2][4]; BV av; int ind; KVar<0, 0> a; KVar<1, 0> b; KVar<0, 1> p; KVar<1, 1> q; DV m[4], K, S; // model: a b p q
  BW(int i) : av(i & 1, i >> 1), ind(i), a(av), b(av), p(av), q(av) {}
  int pat = 0, cnt = 0;
  void fill(DV &v, int n, double lo, double hi, bool one) { if (lo > 0) { int s = (pat == 1) | ((pat == 2) & (cnt & 1)) | ((pat == 3) & !(cnt & 1)); cnt++; if (s) { double l = lo; lo = -hi; hi = -l; } } v.n = n; for (int i = 0; i < n; i++) v.e[i] = {vp_real(lo, hi), one ? 1. : 0.}; }
  void bind(int n0, int n1, double lo, double hi) {
    fill(m[2], n0, lo, hi, ind == 2); fill(m[3], n1, lo, hi, ind == 3);
    for (int j = 0; j < 2; j++) for (int i = 0; i < 4; i++) x[j][i] = i < m[2 + j].n ? m[2 + j].e[i].v : 77;
    etr::Vec<double, etr::Borrow<double>> bx(x[0], (std::size_t)n0), by(x[1], (std::size_t)n1); av.initBorrow(bx, by); }
  auto k() { return K.n == 1 ? etr::coca<0>(av, K.e[0].v) : K.n == 2 ? etr::coca<0>(av, K.e[0].v, K.e[1].v) : etr::coca<0>(av, K.e[0].v, K.e[1].v, K.e[2].v); }
  void fillK(int n, double lo, double hi) { fill(K, n, lo, hi, false); }
  template <int J> void byConst() { auto set = [&](auto &t) { t = k(); m[J] = K; if (J == ind) for (int i = 0; i < K.n; i++) m[J].e[i].d = 1; }; if constexpr (J == 0) set(a); else if constexpr (J == 1) set(b); else if constexpr (J == 2) set(p); else set(q); }
  void start(int n0, int n1, int n2, int n3, int nk, double lo, double hi) { bind(n2, n3, lo, hi); fillK(n0, lo, hi); byConst<0>(); fillK(n1, lo, hi); byConst<1>(); fillK(nk, lo, hi); fill(S, 1, lo, hi, false); }
  template <typename V> void check1(V &v, const DV &w) {
    vp_eqi((long)v.size(), w.n, "deriv.size"); auto z = v.d.get(); auto d = etr::get_derivs(v);
    vp_eqi((long)z.size(), w.n, "deriv.valsize"); vp_eqi((long)d.size(), w.n, "deriv.dsize");
    for (int i = 0; i < w.n; i++) { vp_eq(z[i], w.e[i].v, "deriv.value"); vp_close(d[i], w.e[i].d, "deriv.deriv"); } }
  void check() { check1(a, m[0]); check1(b, m[1]); check1(p, m[2]); check1(q, m[3]); for (int j = 0; j < 2; j++) { for (int i = 0; i < m[2 + j].n; i++) vp_eq(x[j][i], m[2 + j].e[i].v, "deriv.memory"); vp_eqi((long)x[j][3], 77, "deriv.beyond"); } }
};
#define G(NN, ...) case NN: if constexpr (MASK >> NN & 1) { { using etr::sinus; auto &a = w.a; auto &b = w.b; auto &p = w.p; auto &q = w.q; auto K = [&] { return w.k(); }; auto S = [&] { return etr::scalarDeriv<1>(w.av, w.S.e[0].v); }; put(t, __VA_ARGS__); } \
  { const DV &a = w.m[0], &b = w.m[1], &p = w.m[2], &q = w.m[3]; auto K = [&] { return w.K; }; auto S = [&] { return w.S; }; r = __VA_ARGS__; } } break;
template <int J, unsigned long MASK, typename T> void bform(BW &w, T &t, int f) {
  DV r;
  switch (f) { G(0, p) G(1, q) G(2, a) G(3, p + q) G(4, p - a) G(5, p * p) G(6, a * p) G(7, K() * q) G(8, p * S()) G(9, sinus(q)) G(10, sinus(p * b)) G(11, a * p + b * q) G(12, p / q) G(13, b / p) G(14, (p > a) * q) G(15, q * a - p) }
  w.m[J] = r;
}
template <unsigned long MASK> void btarget(BW &w, int j, int f) { switch (j) { case 0: bform<0, MASK>(w, w.a, f); break; case 1: bform<1, MASK>(w, w.b, f); break; case 2: bform<2, MASK>(w, w.p, f); break; case 3: bform<3, MASK>(w, w.q, f); break; } }
template <unsigned long MASK> void bone(int lo, int hi) { BW w(vp_pick(vp_int(0, 3))); if (lo > 0) w.pat = vp_pick(vp_int(0, 3)); w.start(2, 2, 2, 2, 2, lo, hi); int j = vp_pick(vp_int(0, 3)); int f = pickForm<MASK>(); btarget<MASK>(w, j, f); w.check(); }
VP_HARNESS(borrowed_linear) { bone<0x1f>(-10, 10); }
VP_HARNESS(borrowed_products) { bone<0x8fe0>(-10, 10); }
VP_HARNESS(borrowed_quotients) { bone<0x3000>(1, 10); }
VP_HARNESS(borrowed_compared) { bone<0x4000>(-10, 10); }
// bound to memory of other lengths, set by constants, expressions that fit; read before anything is assigned
VP_HARNESS(borrowed_start) { BW w(vp_pick(vp_int(0, 3))); int n = vp_pick(vp_int(1, 3)); w.start(1, 2, n, 3, 1, -10, 10); w.check(); w.fillK(vp_pick(vp_int(1, n)), -10, 10); w.byConst<2>(); w.check(); w.fillK(vp_pick(vp_int(1, 3)), -10, 10); w.byConst<3>(); w.check(); }
VP_HARNESS(borrowed_recycled) { BW w(vp_pick(vp_int(0, 3))); int n = vp_pick(vp_int(1, 3)); w.start(vp_pick(vp_int(1, 3)), 2, n, 3, 2, -10, 10); int f = pickForm<1ul << 6 | 1ul << 4>(); btarget<1ul << 6 | 1ul << 4>(w, vp_pick(vp_int(0, 1)) ? 3 : 1, f); w.check(); }
VP_HARNESS(borrowed_too_long) { BW w(vp_pick(vp_int(0, 3))); w.start(2, 3, 2, 3, 3, -10, 10); int k = vp_pick(vp_int(0, 3)); bool t = vp_throws([&] { switch (k) { case 0: w.p = w.k(); break; case 1: w.p = w.b; break; case 2: w.p = w.b * w.a; break; case 3: w.p = w.p + w.q; break; } }); vp_check(t, "deriv.too_long"); for (int i = 2; i < 4; i++) vp_eqi((long)w.x[0][i], 77, "deriv.beyond"); for (int i = 0; i < 3; i++) vp_eq(w.x[1][i], w.m[3].e[i].v, "deriv.memory"); }
constexpr unsigned long BH = 1ul << 0 | 1ul << 5 | 1ul << 6 | 1ul << 2;
static void bhist(int steps, double r) { BW w(vp_pick(vp_int(0, 3))); w.start(1, 1, 1, 1, 1, -r, r); for (int s = 0; s < steps; s++) { int j = vp_pick(vp_int(0, 3)); int f = pickForm<BH>(); btarget<BH>(w, j, f); } w.check(); }
VP_HARNESS(borrowed_history2) { bhist(2, 2); }
#ifdef VP_THOROUGH
VP_HARNESS(borrowed_history3) { bhist(3, 2); }
#endif
