// BOUND: operand lengths 1..3 (thorough 1..5) for every operand kind on either side: variable, scalar, integer variable/scalar, temporary, subset with arbitrary index, expression, negation, borrowed, logical; all doubles (every bit pattern), integers for + and - within +-2^30, for / all values, for * within +-30000
// BOUND: lengths 1,2,7,20,64,100,257 against 1,3,64,100,130 with symbolic contents
// BOUND: integer^integer for bases -5..5 and exponents 0..4
// OUTSIDE: longer vectors, integer overflow, logical (op) logical, integer to a negative integer power
#include "etr_inc.h"
#include <cmath>
using namespace etr;
static const int LA[] = {1, 2, 7, 20, 64, 100, 257}, LB[] = {1, 3, 64, 100, 130};
template <typename F> static void longvec(int op, F want) {
  int n = LA[vp_pick(vp_int(0, 6))], m = LB[vp_pick(vp_int(0, 4))];
  static double da[300], db[300];
  sexp a = vector_numeric(n), b = vector_numeric(m), c;
  for (int i = 0; i < n; i++) { da[i] = vp_double(); a[i] = da[i]; }
  for (int i = 0; i < m; i++) { db[i] = vp_double(); b[i] = db[i]; }
  if (op == 0) c = a + b;
  else if (op == 1) c = a - b;
  else if (op == 2) c = a * b;
  else if (op == 3) c = a / b;
  else c = a ^ b;
  int k = n > m ? n : m;
  vp_eqi((long)c.size(), k, "long.size");
  for (int i = 0; i < k; i++) vp_eq(c[i], want(da[i % n], db[i % m]), "long.elem");
  for (int i = 0; i < n; i++) vp_eq(a[i], da[i], "long.lhs_kept");
  for (int i = 0; i < m; i++) vp_eq(b[i], db[i], "long.rhs_kept");
}
VP_HARNESS(long_add) { longvec(0, [](double x, double y) { return x + y; }); }
VP_HARNESS(long_sub) { longvec(1, [](double x, double y) { return x - y; }); }
VP_HARNESS(long_mul) { longvec(2, [](double x, double y) { return x * y; }); }
VP_HARNESS(long_div) { longvec(3, [](double x, double y) { return x / y; }); }
VP_HARNESS(long_pow) { longvec(4, [](double x, double y) { return std::pow(x, y); }); }
VP_HARNESS(int_pow) {
  int x = vp_pick(vp_int(-5, 5)), y = vp_pick(vp_int(0, 4));
  long w = 1;
  for (int i = 0; i < y; i++) w *= x;
  Vec<int> a(SI{2}), r; a[0] = x; a[1] = 2;
  sexp d;
  r = a ^ y; d = a ^ y;
  vp_eqi(r[0], w, "int_pow.int"); vp_eq(d[0], (double)w, "int_pow.dbl"); vp_eqi((long)r.size(), 2, "int_pow.size");
  vp_eqi(r[1], 1 << y, "int_pow.second");
}
// division of integers is real division, whatever the destination chain
VP_HARNESS(int_div_chain) {
  int x = vp_int(-30000, 30000), y = vp_int(-30000, 30000);
  double z = vp_double();
  Vec<int> a(SI{1}), b(SI{1}); a[0] = x; b[0] = y;
  sexp c; c = a / b + z;
  vp_eq(c[0], (double)x / (double)y + z, "int_div.chain");
  sexp e; e = (a / b) * (a / 2);
  vp_eq(e[0], ((double)x / (double)y) * ((double)x / 2.0), "int_div.nested");
  Vec<int> t; t = a + b * 2;
  vp_eqi(t[0], x + y * 2, "int.int_result");
}
