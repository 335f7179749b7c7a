// Comparisons; OPNAME / OP / WANT(x,y) given by the includer.
#define IMAX 2147483647
#include "operands.h"
template <typename L, typename R, typename FL, typename FR>
void verify(const L &l, const R &r, FL fl, FR fr, int nl, int nr) {
  int k = nl > nr ? nl : nr;
  vp_eqi((long)(l OP r).size(), k, OPNAME ".len");
  Vec<bool> res;
  res = l OP r;
  vp_eqi((long)res.size(), k, OPNAME ".size");
  vp_check(!res.im(), OPNAME ".shape");
  for (int i = 0; i < k; i++)
    vp_eqi(res[i], WANT((double)fl(nl ? i % nl : 0), (double)fr(nr ? i % nr : 0)), OPNAME ".elem");
  sexp num;
  num = l OP r;
  int j = k - 1;
  vp_eq(num[j], (double)(WANT((double)fl(nl ? j % nl : 0), (double)fr(nr ? j % nr : 0))), OPNAME ".as_numeric");
}
template <int LK> void go(int rk) {
  int n = vp_pick(vp_int(1, NMAX)), m = vp_pick(vp_int(1, NMAX));
  Side<true> A(LK == 1 || LK == 3 ? 1 : n), B(m);
  operand(LK, A, [&](const auto &l, auto fl, int nl) {
    operand(rk, B, [&](const auto &r, auto fr, int nr) {
      using TL = std::remove_cvref_t<decltype(l)>; using TR = std::remove_cvref_t<decltype(r)>;
      if constexpr (!(std::is_arithmetic_v<TL> && std::is_arithmetic_v<TR>)) verify(l, r, fl, fr, nl, nr);
    });
  });
}
#define ANY vp_pick(vp_int(0, KINDS - 1))
#define C2(a, b) a##b
#define CAT(a, b) C2(a, b)
#define E(x) CAT(OPID, x)
#define H2(n) VP_HARNESS(n)
H2(E(_vec)) { go<0>(ANY); }
H2(E(_dbl)) { go<1>(ANY); }
H2(E(_ivec)) { go<2>(ANY); }
H2(E(_int)) { go<3>(ANY); }
H2(E(_tmp)) { go<4>(ANY); }
H2(E(_subset)) { go<5>(ANY); }
H2(E(_expr)) { go<6>(ANY); }
H2(E(_lgl)) { go<9>(ANY); }
