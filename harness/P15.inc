// BOUND: one to five arguments; every pair of the 10 operand forms, every form between forms of all three types; lengths 1..3 (5 thorough)
// OUTSIDE: more than five arguments; matrices lose their shape in coca
#include "operands.h"
template <typename T> struct Scal { static constexpr bool v = std::is_arithmetic_v<std::remove_cvref_t<T>>; };
// the argument is unchanged and its elements stand in the result from position o on
template <typename Q, typename X, typename A> void part(const Q &q, int o, const X &x, A at, int m) {
  for (int i = 0; i < m; i++) vp_eq((double)q[o + i], (double)at(i), "coca.elem");
  if constexpr (Scal<X>::v) vp_eq((double)x, (double)at(0), "coca.arg");
  else { vp_eqi((long)x.size(), m, "coca.argsize"); for (int i = 0; i < m; i++) vp_eq((double)x[i], (double)at(i), "coca.argelem"); }
}
template <typename T, typename Q> constexpr bool elemType = std::is_same_v<std::remove_cvref_t<decltype(std::declval<Q &>()[0])>, T>;
// M1, M2: masks of the operand kinds of the first and second argument
template <unsigned M1, unsigned M2> void two() {
  int k1 = vp_pick(vp_int(0, KINDS - 1)), k2 = vp_pick(vp_int(0, KINDS - 1));
  vp_assume((M1 >> k1 & 1) & (M2 >> k2 & 1));
  int n1 = vp_pick(vp_int(1, NMAX)), n2 = vp_pick(vp_int(1, NMAX)); Side<true> s(n1), t(n2);
  operandM<M1>(k1, s, [&](const auto &x, auto ax, int lx) {
    operandM<M2>(k2, t, [&](const auto &y, auto ay, int ly) {
      int a = lx ? lx : 1, b = ly ? ly : 1;
      auto q = coca(x, y);
      vp_eqi((long)q.size(), a + b, "coca.size"); vp_eqi(q.im(), 0, "coca.matrix");
      part(q, 0, x, ax, a); part(q, a, y, ay, b);
    });
  });
}
template <unsigned M> void single() {
  int k = vp_pick(vp_int(0, KINDS - 1)); vp_assume(M >> k & 1); int n = vp_pick(vp_int(1, NMAX)); Side<true> s(n);
  operandM<M>(k, s, [&](const auto &x, auto ax, int lx) {
    int a = lx ? lx : 1; auto q = coca(x); vp_eqi((long)q.size(), a, "coca.size"); part(q, 0, x, ax, a);
    // between arguments of every type
    Side<true> t(2); t.lgl(); int w = vp_int(-30000, 30000); double z = vp_double();
    auto q2 = coca(t.ab, x, w); vp_eqi((long)q2.size(), a + 3, "coca3.size"); for (int i = 0; i < 2; i++) vp_eq((double)q2[i], t.bv[i], "coca3.lgl"); part(q2, 2, x, ax, a); vp_eq((double)q2[a + 2], w, "coca3.int");
    auto q3 = coca(z, w, x); vp_eqi((long)q3.size(), a + 2, "coca3.size"); vp_eq(q3[0], z, "coca3.dbl"); vp_eq(q3[1], w, "coca3.int"); part(q3, 2, x, ax, a);
    auto q4 = coca(x, w, t.ab, z, x); vp_eqi((long)q4.size(), 2 * a + 4, "coca5.size"); part(q4, 0, x, ax, a); vp_eq(q4[a], w, "coca5.int"); for (int i = 0; i < 2; i++) vp_eq(q4[a + 1 + i], t.bv[i], "coca5.lgl"); vp_eq(q4[a + 3], z, "coca5.dbl"); part(q4, a + 4, x, ax, a);
  });
}
