// Elementwise arithmetic with recycling; OPNAME / OP / WANT(x,y) given by the includer.
#include "operands.h"
// result of l OP r against the recycled elementwise definition
template <typename L, typename R, typename FL, typename FR>
void verify(const L &l, const R &r, FL fl, FR fr, int nl, int nr) {
  int k = nl > nr ? nl : nr;
  vp_eqi((long)(l OP r).size(), k, OPNAME ".len");
  sexp res;
  res = l OP r;
  vp_eqi((long)res.size(), k, OPNAME ".size");
  for (int i = 0; i < k; i++)
    vp_eq(res[i], (double)WANT(fl(nl ? i % nl : 0), fr(nr ? i % nr : 0)), OPNAME ".elem");
  int j = k - 1;
  const auto &e = l OP r;
  vp_eq((double)e[j], (double)WANT(fl(nl ? j % nl : 0), fr(nr ? j % nr : 0)), OPNAME ".direct");
}
#ifdef ISPOW
constexpr bool skip(int l, int r) { return l && r; } // integer powers: P01_misc
#else
constexpr bool skip(int l, int r) { return l == 2 && r == 2; } // at least one operand is numeric
#endif
template <int LK> void go(int rk) {
  int n = vp_pick(vp_int(1, NMAX)), m = vp_pick(vp_int(1, NMAX));
  Side<true> A(LK == 1 || LK == 3 ? 1 : n), B(m);
  operand(LK, A, [&](const auto &l, auto fl, int nl) {
    operand(rk, B, [&](const auto &r, auto fr, int nr) {
      using TL = std::remove_cvref_t<decltype(l)>; using TR = std::remove_cvref_t<decltype(r)>;
      constexpr bool SKIP = skip(kindType(LK), std::is_same_v<TR, Vec<bool>> ? 2 : (std::is_same_v<TR, Vec<int>> || std::is_same_v<TR, int>) ? 1 : 0);
      if constexpr (!(std::is_arithmetic_v<TL> && std::is_arithmetic_v<TR>) && !SKIP) verify(l, r, fl, fr, nl, nr);
    });
  });
}
