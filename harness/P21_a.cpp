// BOUND: vectors of 1..4 elements (6 thorough), matrices of 1..3 rows and columns, numeric, integer and logical; variables, const and borrowed variables, variables of derivative programs, temporaries, subsets, sums, unary operations, comparisons; printed one after another in any order of logical and other values; numbers are multiples of a quarter up to 500 or integers up to 30000
// OUTSIDE: whether logical elements of comparisons and subsets that are not stored in a variable are written as words or as 1 and 0; digits beyond the precision of the stream; printing in R (not compiled here); empty vectors
#include "etr_inc.h"
using namespace etr;
#ifdef VP_THOROUGH
constexpr int PN = 6;
#else
constexpr int PN = 4;
#endif
template <typename T> const T &ro(const T &t) { return t; }
static double q4() { return vp_int(-2000, 2000) * 0.25; }
template <typename T> bool istok(int k, T v) { if constexpr (std::is_same_v<T, bool>) return v ? vp_out_text_is(k, "true") : vp_out_text_is(k, "false"); else return vp_out_isnum(k); }
template <typename T> void tok(int k, T v, const char *id) { if constexpr (std::is_same_v<T, bool>) { if (v) vp_check(vp_out_text_is(k, "true"), id); else vp_check(vp_out_text_is(k, "false"), id); } else { vp_eqi(vp_out_isnum(k), 1, id); vp_eq(vp_out_num(k), (double)v, id); } }
// logical elements of unevaluated expressions and subsets: written as true/false or 1/0
struct LX { bool v; };
static void tok(int k, LX x, const char *id) { if (vp_out_isnum(k)) vp_eq(vp_out_num(k), (double)x.v, id); else tok(k, x.v, id); }
// tokens k.. are line ends only
static void ends(int k, int n, const char *id) { vp_check(n > k, id); for (int i = k; i < n; i++) vp_check(vp_out_text_is(i, "\n"), id); }
template <typename V, typename F> void expectVec(const V &v, int n, F f, const char *id) { vp_out_begin(); print(v); int t = vp_out_end(); for (int i = 0; i < n; i++) tok(i, f(i), id); ends(n, t, "print.end"); }
template <typename V, typename F> void expectMat(const V &v, int r, int c, F f, const char *id) { vp_out_begin(); print(v); int t = vp_out_end(), k = 0; for (int i = 0; i < r; i++) { for (int j = 0; j < c; j++) tok(k++, f(i, j), id); vp_check(vp_out_text_is(k++, "\n"), "print.row"); } ends(k - 1, t, "print.end"); }
struct D { int n; double d[PN]; sexp v; explicit D(int n_, bool whole = false) : n(n_) { v = vector_numeric(n); for (int i = 0; i < n; i++) { if (whole) d[i] = vp_int(-30000, 30000); else d[i] = q4(); v[i] = d[i]; } } void same() { vp_eqi((long)v.size(), n, "print.argsize"); vp_eqi(v.im(), 0, "print.argmatrix"); for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "print.arg"); } };
struct I { int n; int d[PN]; Vec<int> v; explicit I(int n_) : n(n_), v(SI{n_}) { for (int i = 0; i < n; i++) { d[i] = vp_int(-30000, 30000); v[i] = d[i]; } } };
struct L { int n; bool d[PN]; Vec<bool> v; explicit L(int n_) : n(n_), v(SI{n_}) { for (int i = 0; i < n; i++) { d[i] = vp_bool(); v[i] = d[i]; } } };
VP_HARNESS(vec_dbl) { D a(vp_pick(vp_int(1, PN))); auto f = [&](int i) { return a.d[i]; }; expectVec(a.v, a.n, f, "print.vec"); a.same(); expectVec(ro(a.v), a.n, f, "print.cvec"); a.same(); expectVec(a.v, a.n, f, "print.again"); }
VP_HARNESS(vec_int) { I a(vp_pick(vp_int(1, PN))); expectVec(a.v, a.n, [&](int i) { return a.d[i]; }, "print.int"); for (int i = 0; i < a.n; i++) vp_eqi(a.v[i], a.d[i], "print.arg"); }
VP_HARNESS(vec_lgl) { L a(vp_pick(vp_int(1, PN))); expectVec(a.v, a.n, [&](int i) { return a.d[i]; }, "print.lgl"); for (int i = 0; i < a.n; i++) vp_eqi(a.v[i], a.d[i], "print.arg"); }
VP_HARNESS(borrowed) { int n = vp_pick(vp_int(1, PN)); double r[PN + 1], d[PN]; for (int i = 0; i < n; i++) r[i] = d[i] = q4(); r[n] = 77; Vec<double, Borrow<double>> b(r, (std::size_t)n); expectVec(b, n, [&](int i) { return d[i]; }, "print.borrowed"); for (int i = 0; i < n; i++) vp_eq(r[i], d[i], "print.arg"); }
VP_HARNESS(special) { sexp v; v = coca(0.0, 1.0, 2.0); double d[3]; for (int i = 0; i < 3; i++) { int k = vp_pick(vp_int(0, 3)); d[i] = k == 0 ? __builtin_nan("") : k == 1 ? __builtin_inf() : k == 2 ? -__builtin_inf() : 0.25; v[i] = d[i]; } expectVec(v, 3, [&](int i) { return d[i]; }, "print.special"); }
VP_HARNESS(subsets) { D a(PN); int m = vp_pick(vp_int(1, 3)); Vec<int> ix(SI{m}); int p[3]; for (int i = 0; i < m; i++) { p[i] = vp_int(1, PN); ix[i] = p[i]; } expectVec(subset(a.v, ix), m, [&](int i) { return a.d[p[i] - 1]; }, "print.subset"); a.same(); int one = vp_int(1, PN); expectVec(subset(a.v, one), 1, [&](int) { return a.d[one - 1]; }, "print.element"); a.same(); L b(3); int two = 2; expectVec(subset(b.v, two), 1, [&](int) { return LX{b.d[1]}; }, "print.lglsubset"); expectVec(subset(a.v, true), PN, [&](int i) { return a.d[i]; }, "print.all"); }
VP_HARNESS(expressions) {
  D a(vp_pick(vp_int(1, 3)), true), b(vp_pick(vp_int(1, 3)), true); int k = a.n > b.n ? a.n : b.n; double x = vp_int(-30000, 30000);
  expectVec(a.v + b.v, k, [&](int i) { return a.d[i % a.n] + b.d[i % b.n]; }, "print.sum"); expectVec(a.v - x, a.n, [&](int i) { return a.d[i] - x; }, "print.diff"); expectVec(-a.v, a.n, [&](int i) { return -a.d[i]; }, "print.minus"); expectVec(a.v < b.v, k, [&](int i) { return LX{a.d[i % a.n] < b.d[i % b.n]}; }, "print.less"); expectVec(coca(a.v, x, b.v), a.n + b.n + 1, [&](int i) { return i < a.n ? a.d[i] : i == a.n ? x : b.d[i - a.n - 1]; }, "print.temporary"); expectVec(a.v != x, a.n, [&](int i) { double u = a.d[i] - x; return LX{!(std::fabs(u) < 1e-3)}; }, "print.unequal"); a.same(); b.same();
}
VP_HARNESS(matrices) {
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)); sexp m; m = matrix(vector_numeric(r * c), int(r), int(c)); double d[9]; for (int i = 0; i < r * c; i++) { d[i] = q4(); m[i] = d[i]; } double x = q4(); auto f = [&](int i, int j) { return d[j * r + i]; };
  expectMat(m, r, c, f, "print.matrix"); expectMat(ro(m), r, c, f, "print.cmatrix"); vp_eqi(m.im(), 1, "print.argmatrix"); vp_eqi((long)m.nr(), r, "print.rows"); vp_eqi((long)m.nc(), c, "print.cols"); for (int i = 0; i < r * c; i++) vp_eq(m[i], d[i], "print.arg");
  expectMat(m + x, r, c, [&](int i, int j) { return d[j * r + i] + x; }, "print.msum"); expectMat(-m, r, c, [&](int i, int j) { return -d[j * r + i]; }, "print.mminus"); expectMat(m < x, r, c, [&](int i, int j) { return LX{d[j * r + i] < x}; }, "print.mless"); expectMat(matrix(double(x), int(c), int(r)), c, r, [&](int, int) { return x; }, "print.mtemporary");
  expectMat(subset(m, true, true), r, c, f, "print.msubset"); Vec<int> ix; ix = coca(1); expectMat(subset(m, ix, true), 1, c, [&](int, int j) { return d[j * r]; }, "print.mrow"); expectMat(subset(m, true, ix), r, 1, [&](int i, int) { return d[i]; }, "print.mcol");
  double raw[9]; for (int i = 0; i < r * c; i++) raw[i] = d[i]; Vec<double, Borrow<double>> bm(raw, r, c); expectMat(bm, r, c, f, "print.mborrowed");
}
VP_HARNESS(logical_matrix) { // whatever was printed before
  int k = vp_pick(vp_int(0, 3)); L a(4); D b(2); vp_out_begin(); if (k == 1) print(a.v); if (k == 2) print(b.v); if (k == 3) print(true); vp_out_end();
  Vec<bool> m; m = matrix(Vec<bool>(SI{4}), 2, 2); for (int i = 0; i < 4; i++) m[i] = a.d[i]; expectMat(m, 2, 2, [&](int i, int j) { return a.d[j * 2 + i]; }, "print.lglmatrix"); sexp n; n = matrix((double)vp_int(-500, 500), 2, 2); double x = n[0]; expectMat(n, 2, 2, [&](int, int) { return x; }, "print.after"); expectMat(n == n, 2, 2, [&](int, int) { return LX{true}; }, "print.equal"); expectVec(a.v, 4, [&](int i) { return a.d[i]; }, "print.lgl");
}
template <typename T> void scalar(T v, const char *id) { T o = v; vp_out_begin(); print(v); int t = vp_out_end(); tok(0, o, id); ends(1, t, "print.end"); vp_eq((double)v, (double)o, "print.arg"); }
VP_HARNESS(scalars) { int k = vp_pick(vp_int(0, 1)); if (k) { vp_out_begin(); print(false); vp_out_end(); } scalar(q4(), "print.dbl"); scalar(vp_int(-30000, 30000), "print.intscalar"); scalar(vp_bool(), "print.bool"); double d = q4(); scalar(d, "print.dbl"); }
VP_HARNESS(text) { vp_out_begin(); print("some-text"); int t = vp_out_end(); vp_check(vp_out_text_is(0, "some-text"), "print.text"); ends(1, t, "print.end"); vp_out_begin(); print(); t = vp_out_end(); ends(0, t, "print.empty"); }
VP_HARNESS(history) { D a(vp_pick(vp_int(1, 3))); int n = vp_pick(vp_int(1, 3)); D b(n); a.v = b.v; expectVec(a.v, n, [&](int i) { return b.d[i]; }, "print.history"); double x = q4(); a.v = coca(b.v, x); expectVec(a.v, n + 1, [&](int i) { return i < n ? b.d[i] : x; }, "print.longer"); a.v = x; expectVec(a.v, 1, [&](int) { return x; }, "print.scalar"); a.v = matrix(std::move(b.v), 1, int(n)); expectMat(a.v, 1, n, [&](int, int j) { return b.d[j]; }, "print.reshaped"); }
// variables of a derivative program, given as vectors and matrices
template <typename V, typename AV, typename F> void expectDeriv(const V &v, AV &av, int r, int c, bool mat, F f, const char *id) { vp_out_begin(); print(v, av); int t = vp_out_end(), k = 0; for (int i = 0; i < r; i++) { for (int j = 0; j < c; j++) tok(k++, f(i, j), id); if (mat) vp_check(vp_out_text_is(k++, "\n"), "print.row"); } ends(mat ? k - 1 : k, t, "print.end"); }
VP_HARNESS(derivative_variables) {
  using AV = etr::AllVars<2, 1, 0, 1>; AV av(0, 0); etr::Vec<double, etr::VarPointer<AV, 0, 0>, etr::VariableTypeTrait> a(av); etr::Vec<double, etr::VarPointer<AV, 1, 0>, etr::VariableTypeTrait> b(av); etr::Vec<double, etr::VarPointer<AV, 0, 1>, etr::VariableTypeTrait> p(av);
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)), n = vp_pick(vp_int(1, 3)); sexp m; m = matrix(vector_numeric(r * c), int(r), int(c)); double d[9]; for (int i = 0; i < r * c; i++) { d[i] = q4(); m[i] = d[i]; } D v(n);
  av.initBuffer(m, v.v); expectDeriv(a, av, r, c, true, [&](int i, int j) { return d[j * r + i]; }, "print.deriv_matrix"); expectDeriv(b, av, 1, n, false, [&](int, int j) { return v.d[j]; }, "print.deriv_vector"); m[0] = 1; expectDeriv(a, av, r, c, true, [&](int i, int j) { return d[j * r + i]; }, "print.deriv_matrix"); v.same();
  double raw[9]; for (int i = 0; i < r * c; i++) raw[i] = d[i]; Vec<double, Borrow<double>> bm(raw, r, c); av.initBorrow(bm); expectDeriv(p, av, r, c, true, [&](int i, int j) { return d[j * r + i]; }, "print.deriv_borrowed"); }
