// BOUND: coca, colon, vector_numeric, vector_integer, vector_logical and scalarDeriv of a slot that is empty or holds 1..4 older constants; colon endpoints any int or double at most 4 apart (and quarters), in 8 forms; coca of up to 4 arguments of every form and type; sizes -3..4 of every type; the constant read, assigned to a variable and used in expressions
// OUTSIDE: matrices of constants; rep and matrix (there is no such function); variables of the program and expressions as arguments of coca (do not compile)
#include "P13.inc"
using AV = etr::AllVars<2, 0, 0, 3>;
template <int I> using DVar = etr::Vec<double, etr::VarPointer<AV, I, 0>, etr::VariableTypeTrait>;
struct CW {
  AV av; DVar<0> a; DVar<1> c; double x[2], o[4]; int old;
  explicit CW(int old_) : av(0, 0), a(av), c(av), old(old_) {
    for (int i = 0; i < 2; i++) x[i] = vp_real(-10, 10);
    a = etr::coca<0>(av, x[0], x[1]);
    for (int i = 0; i < 4; i++) o[i] = vp_real(-10, 10);
    if (old == 1) etr::coca<1>(av, o[0]); else if (old == 2) etr::coca<1>(av, o[0], o[1]); else if (old == 4) etr::coca<1>(av, o[0], o[1], o[2], o[3]);
  }
  void rest() { // the other slots, variables and derivatives
    vp_eqi((long)av.varConstants[0].size(), 2, "const.other"); vp_eqi((long)a.size(), 2, "const.other"); auto d = etr::get_derivs(a);
    for (int i = 0; i < 2; i++) { vp_eq(av.varConstants[0][i], x[i], "const.other"); vp_eq(a.d[i], x[i], "const.other"); vp_eq(d[i], 1, "const.other"); }
    vp_eqi((long)av.varConstants[2].size(), 0, "const.other");
  }
  // k has the n elements want(i)
  template <typename K, typename W> void expect(const K &k, int n, W want) {
    vp_eqi((long)k.size(), n, "const.size"); vp_eqi(k.im(), 0, "const.matrix"); vp_eqi((long)av.varConstants[1].size(), n, "const.size");
    for (int i = 0; i < n; i++) vp_eq(k.d[i], want(i), "const.elem");
    c = k; vp_eqi((long)c.size(), n, "const.assigned"); { auto d = etr::get_derivs(c); for (int i = 0; i < n; i++) { vp_eq(c.d[i], want(i), "const.assigned"); vp_eq(d[i], 0, "const.deriv"); } }
    c = k + a; int m = n > 2 ? n : 2; vp_eqi((long)c.size(), m, "const.expr"); { auto d = etr::get_derivs(c); for (int i = 0; i < m; i++) { vp_eq(c.d[i], want(i % n) + x[i % 2], "const.expr"); vp_eq(d[i], 1, "const.expr"); } }
    vp_eqi((long)k.size(), n, "const.after"); for (int i = 0; i < n; i++) vp_eq(k.d[i], want(i), "const.after");
    rest();
  }
  template <typename F> void fails(F f) { vp_check(vp_throws(f), "const.error"); vp_eqi((long)av.varConstants[1].size(), old, "const.error"); for (int i = 0; i < old; i++) vp_eq(av.varConstants[1][i], o[i], "const.error"); rest(); }
};
static int oldN() { static const int N[] = {0, 1, 2, 4}; return N[vp_pick(vp_int(0, 3))]; }
// sizes
template <int FN> static void sized() {
  CW w(oldN()); auto &av = w.av; int n = vp_pick(vp_int(-3, 4)), form = vp_pick(vp_int(0, 7));
  auto f = [&](const auto &s) { if constexpr (FN == 0) return etr::vector_numeric<1>(av, s); else if constexpr (FN == 1) return etr::vector_integer<1>(av, s); else return etr::vector_logical<1>(av, s); };
  auto g = [&](const auto &s) { if (n >= 1) w.expect(f(s), n, [](int) { return 0.; }); else w.fails([&] { f(s); }); };
  double fr = 0.75;
  switch (form) {
  case 0: g(n); break;
  case 1: g((double)n); break;
  case 2: g(n >= 1 ? n + fr : n - fr); break;
  case 3: { Vec<int> v; v = coca(n); g(v); break; }
  case 4: { sexp v; v = coca((double)n); g(v); break; }
  case 5: { sexp v; v = coca((double)n); double z = 0; g(v + z); break; }
  case 6: if (n < 1) return; g((std::size_t)n); break;
  case 7: { Vec<int> v; v = coca(n, 3); w.fails([&] { f(v); }); break; }
  }
}
VP_HARNESS(numeric) { sized<0>(); }
VP_HARNESS(integer) { sized<1>(); }
VP_HARNESS(logical) { sized<2>(); }
template <int FN> static void sizedMutable() { // the overloads taking a variable
  CW w(oldN()); auto &av = w.av; int n = vp_pick(vp_int(-1, 4));
  auto f = [&](auto &s) { if constexpr (FN == 0) return etr::vector_numeric<1>(av, s); else if constexpr (FN == 1) return etr::vector_integer<1>(av, s); else return etr::vector_logical<1>(av, s); };
  auto g = [&](auto &s) { if (n >= 1) w.expect(f(s), n, [](int) { return 0.; }); else w.fails([&] { f(s); }); };
  switch (vp_pick(vp_int(0, 5))) {
  case 4: { Vec<int> v; v = coca(n, 1); w.fails([&] { f(v); }); vp_eqi(v[0], n, "const.arg"); break; }
  case 5: { sexp v; v = coca((double)n, 2.0, 1.0); w.fails([&] { f(v); }); vp_eqi((long)v.size(), 3, "const.arg"); break; }
  case 0: g(n); vp_eqi(n, n, "const.arg"); break;
  case 1: { double d = n; g(d); break; }
  case 2: { Vec<int> v; v = coca(n); g(v); vp_eqi(v[0], n, "const.arg"); break; }
  case 3: { sexp v; v = coca((double)n); g(v); vp_eq(v[0], n, "const.arg"); break; }
  }
}
VP_HARNESS(numeric_var) { sizedMutable<0>(); }
VP_HARNESS(integer_var) { sizedMutable<1>(); }
VP_HARNESS(logical_var) { sizedMutable<2>(); }
VP_HARNESS(scalar) {
  CW w(oldN()); auto &av = w.av; double s = vp_real(-10, 10); int i = vp_int(-1000000000, 1000000000); bool b = vp_bool();
  switch (vp_pick(vp_int(0, 2))) {
  case 0: w.expect(etr::scalarDeriv<1>(av, s), 1, [&](int) { return s; }); break;
  case 1: w.expect(etr::scalarDeriv<1>(av, i), 1, [&](int) { return (double)i; }); break;
  case 2: w.expect(etr::scalarDeriv<1>(av, b), 1, [&](int) { return (double)b; }); break;
  }
}
// coca: arguments of every form
VP_HARNESS(concat) {
  CW w(oldN()); auto &av = w.av; double s = vp_real(-10, 10), q[3]; int i = vp_int(-1000000000, 1000000000), r[2]; bool b = vp_bool();
  int n = vp_pick(vp_int(1, 3)); sexp v = vector_numeric(int(n)); for (int k = 0; k < n; k++) { q[k] = vp_real(-10, 10); v[k] = q[k]; }
  Vec<int> u(SI{2}); for (int k = 0; k < 2; k++) { r[k] = vp_int(-1000000000, 1000000000); u[k] = r[k]; }
  Vec<bool> l; l = coca(b, !b); double e[12]; int m = 0;
  auto V = [&] { for (int k = 0; k < n; k++) e[m++] = q[k]; }; auto U = [&] { for (int k = 0; k < 2; k++) e[m++] = r[k]; };
  auto W = [&](int k) { return e[k]; };
  switch (vp_pick(vp_int(0, 9))) {
  case 0: e[m++] = s; w.expect(etr::coca<1>(av, s), m, W); break;
  case 1: e[m++] = i; e[m++] = s; w.expect(etr::coca<1>(av, i, s), m, W); break;
  case 2: V(); w.expect(etr::coca<1>(av, v), m, W); break;
  case 3: U(); e[m++] = s; w.expect(etr::coca<1>(av, u, s), m, W); break;
  case 4: e[m++] = b; e[m++] = !b; e[m++] = i; w.expect(etr::coca<1>(av, l, i), m, W); break;
  case 5: e[m++] = s; V(); U(); e[m++] = b; w.expect(etr::coca<1>(av, s, v, u, b), m, W); break;
  case 6: V(); V(); e[m++] = s; w.expect(etr::coca<1>(av, coca(v), v, s), m, W); break;
  case 7: U(); e[m++] = q[0]; e[m++] = i; w.expect(etr::coca<1>(av, coca(u), subset(v, 1), i), m, W); break;
  case 8: V(); e[m++] = 3; w.expect(etr::coca<1>(av, subset(v, true), 3), m, W); break;
  case 9: U(); U(); w.expect(etr::coca<1>(av, u, u), m, W); break;
  }
  for (int k = 0; k < n; k++) vp_eq(v[k], q[k], "const.arg"); for (int k = 0; k < 2; k++) vp_eqi(u[k], r[k], "const.arg");
}
VP_HARNESS(history) { // a slot used again and again
  CW w(oldN()); auto &av = w.av;
  for (int k = 0; k < 2; k++) switch (vp_pick(vp_int(0, 5))) {
  case 0: { int n = vp_pick(vp_int(1, 3)); w.expect(etr::vector_numeric<1>(av, n), n, [](int) { return 0.; }); break; }
  case 1: { int a = vp_int(-1000, 1000); w.expect(etr::colon<1>(av, a, a + 2), 3, [&](int i) { return (double)(a + i); }); break; }
  case 2: { double s = vp_real(-10, 10), t = vp_real(-10, 10); w.expect(etr::coca<1>(av, s, t), 2, [&](int i) { return i ? t : s; }); break; }
  case 3: { double s = vp_real(-10, 10); w.expect(etr::scalarDeriv<1>(av, s), 1, [&](int) { return s; }); break; }
  case 4: { int n = vp_pick(vp_int(1, 4)); w.expect(etr::vector_logical<1>(av, (double)n), n, [](int) { return 0.; }); break; }
  case 5: { int a = vp_int(-1000, 1000); w.expect(etr::colon<1>(av, a, a - 3), 4, [&](int i) { return (double)(a - i); }); break; }
  }
}
