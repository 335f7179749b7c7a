// Unary functions; FN (library function), MF (C math function), ID given per use.
#include "operands.h"
template <typename A, typename FA, typename CALL, typename MF>
void verify(const A &a, FA fa, int n, CALL call, MF mf) {
  vp_eqi((long)call(a).size(), n, "unary.len");
  vp_check(!call(a).im(), "unary.shape");
  sexp res;
  res = call(a);
  vp_eqi((long)res.size(), n, "unary.size");
  for (int i = 0; i < n; i++) vp_eq(res[i], mf((double)fa(i)), "unary.elem");
  const auto &e = call(a);
  for (int i = 0; i < n; i++) vp_eq(e[i], mf((double)fa(i)), "unary.direct");
  sexp twice; twice = call(call(a));
  vp_eqi((long)twice.size(), n, "unary.nested_size");
  vp_eq(twice[n - 1], mf(mf((double)fa(n - 1))), "unary.nested");
  sexp mix; mix = call(a) + a * 2.0;
  vp_eq(mix[n - 1], mf((double)fa(n - 1)) + (double)fa(n - 1) * 2.0, "unary.in_expression");
  for (int i = 0; i < n; i++) vp_eq((double)a[i], (double)fa(i), "unary.argument_kept");
}
template <typename CALL, typename MF> void go(CALL call, MF mf) {
  int kind = vp_pick(vp_int(0, 6));
  if (kind == 1) { double x = vp_double(); vp_eq((double)call(x), mf(x), "unary.scalar"); return; }
  if (kind == 2 || kind == 3) { // matrix
    int nr = vp_pick(vp_int(1, NMAX)), nc = vp_pick(vp_int(1, NMAX));
    sexp m; double d[NMAX * NMAX];
    m = matrix(vector_numeric(nr * nc), int(nr), int(nc));
    for (int i = 0; i < nr * nc; i++) { d[i] = vp_double(); m[i] = d[i]; }
    vp_check(call(m).im(), "unary.matrix_expr"); vp_eqi((long)call(m).nr(), nr, "unary.expr_nrow"); vp_eqi((long)call(m).nc(), nc, "unary.expr_ncol");
    sexp r;
    if (kind == 2) r = call(m); else r = call(m * 1.5);
    vp_check(r.im(), "unary.matrix"); vp_eqi((long)r.nr(), nr, "unary.nrow"); vp_eqi((long)r.nc(), nc, "unary.ncol");
    vp_eqi((long)r.size(), nr * nc, "unary.matrix_size");
    for (int i = 0; i < nr * nc; i++) vp_eq(r[i], mf(kind == 2 ? d[i] : d[i] * 1.5), "unary.matrix_elem");
    for (int i = 0; i < nr * nc; i++) vp_eq(m[i], d[i], "unary.matrix_kept");
    return;
  }
  static const int K[] = {0, 0, 0, 0, 4, 5, 6};
  int n = vp_pick(vp_int(1, NMAX));
  Side<true> A(n);
  int k = K[kind];
  if (kind == 0) k = vp_pick(vp_int(0, 2)) * 4; // variable, temporary, borrowed
  if (kind == 6) k = 6 + vp_pick(vp_int(0, 1));  // expression, negation
  operand(k, A, [&](const auto &a, auto fa, int nn) {
    using TA = std::remove_cvref_t<decltype(a)>;
    if constexpr (!std::is_arithmetic_v<TA> && !std::is_same_v<TA, Vec<int>> && !std::is_same_v<TA, Vec<bool>>) verify(a, fa, nn, call, mf);
  });
}
#define UN(ID, FN, MF) VP_HARNESS(ID) { go([](const auto &x) { return FN(x); }, [](double x) { return MF(x); }); }
