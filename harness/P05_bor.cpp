// BOUND: borrowed vectors of 1..4 (thorough 1..5) elements, assigned permutations and expressions of the same memory, same type and converted sources
#include "operands.h"
using BV = Vec<double, Borrow<double>>;
constexpr int BN = NMAX + 1;
// the target borrows memory, the right hand side reads the same memory
static void check(const BV &b, const double *mem, const double *w, int n, const char *what) {
  vp_eqi((long)b.size(), n, "bor.size");
  for (int i = 0; i < n; i++) { vp_eq(b[i], w[i], what); vp_eq(mem[i], w[i], "bor.memory"); }
}
static void fillv(double *mem, double *d, int n) { for (int i = 0; i < n; i++) mem[i] = d[i] = vp_double(); }
VP_HARNESS(bor_perm) {
  int n = vp_pick(vp_int(1, BN)); double mem[BN], d[BN], w[BN]; fillv(mem, d, n);
  BV b(mem, (std::size_t)n);
  Vec<int> ix(SI{n}); int iv[BN]; for (int i = 0; i < n; i++) { iv[i] = vp_int(1, n); ix[i] = iv[i]; }
  for (int i = 0; i < n; i++) w[i] = d[iv[i] - 1];
  b = subset(b, ix);
  check(b, mem, w, n, "bor.perm");
}
VP_HARNESS(bor_rev) {
  int n = vp_pick(vp_int(1, BN)); double mem[BN], d[BN], w[BN]; fillv(mem, d, n);
  BV b(mem, (std::size_t)n);
  double s = vp_double();
  switch (vp_pick(vp_int(0, 5))) {
  case 0: b = subset(b, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i]; break;
  case 1: b = subset(b, colon(n, 1)) - b; for (int i = 0; i < n; i++) w[i] = d[n - 1 - i] - d[i]; break;
  case 2: b = b + b(n); for (int i = 0; i < n; i++) w[i] = d[i] + d[n - 1]; break;
  case 3: b = -subset(b, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = -d[n - 1 - i]; break;
  case 4: subset(b, colon(1, n)) = subset(b, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i]; break;
  case 5: { sexp c; c = b; b = subset(b, colon(n, 1)) + s; b = subset(b, colon(n, 1)); for (int i = 0; i < n; i++) { w[i] = d[i] + s; vp_eq(c[i], d[i], "bor.copy"); } break; }
  }
  check(b, mem, w, n, "bor.rev");
}
// comparison of a piece with itself: logical right hand side, converted
VP_HARNESS(bor_lgl) {
  int n = vp_pick(vp_int(1, NMAX)); double mem[BN], d[BN], w[BN]; fillv(mem, d, n);
  BV b(mem, (std::size_t)n);
  int k = vp_pick(vp_int(0, 1));
  if (k == 0) { b = b > b(1); for (int i = 0; i < n; i++) w[i] = d[i] > d[0]; }
  else { b = subset(b, colon(n, 1)) <= b(n); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i] <= d[n - 1]; }
  check(b, mem, w, n, "bor.lgl");
}
// two borrowed vectors in the same memory, shifted by one element
VP_HARNESS(bor_shift) {
  int n = vp_pick(vp_int(2, BN)); double mem[BN], d[BN], w[BN]; fillv(mem, d, n);
  BV lo(mem, (std::size_t)(n - 1)), hi(mem + 1, (std::size_t)(n - 1));
  for (int i = 0; i < n; i++) w[i] = d[i];
  switch (vp_pick(vp_int(0, 4))) {
  case 0: hi = lo; for (int i = 1; i < n; i++) w[i] = d[i - 1]; break;
  case 1: lo = hi; for (int i = 0; i < n - 1; i++) w[i] = d[i + 1]; break;
  case 2: hi = lo + hi; for (int i = 1; i < n; i++) w[i] = d[i - 1] + d[i]; break;
  case 3: hi = -lo; for (int i = 1; i < n; i++) w[i] = -d[i - 1]; break;
  case 4: subset(hi, colon(1, n - 1)) = lo; for (int i = 1; i < n; i++) w[i] = d[i - 1]; break;
  }
  for (int i = 0; i < n; i++) vp_eq(mem[i], w[i], "bor.shift");
}
// a buffer vector assigned from memory which borrows the buffer
VP_HARNESS(bor_alias) {
  int n = vp_pick(vp_int(1, BN)); double d[BN], w[BN];
  sexp a = vector_numeric(n); for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; }
  BV b(a.d.data(), (std::size_t)n);
  switch (vp_pick(vp_int(0, 4))) {
  case 0: b = subset(a, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i]; break;
  case 1: b = subset(a, colon(n, 1)) + b; for (int i = 0; i < n; i++) w[i] = d[n - 1 - i] + d[i]; break;
  case 2: subset(a, colon(1, n)) = subset(b, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i]; break;
  case 3: a = subset(b, colon(n, 1)); for (int i = 0; i < n; i++) w[i] = d[n - 1 - i]; break;
  case 4: a = b + a(1); for (int i = 0; i < n; i++) w[i] = d[i] + d[0]; break;
  }
  vp_eqi((long)a.size(), n, "bor.alias_size");
  for (int i = 0; i < n; i++) vp_eq(a[i], w[i], "bor.alias");
}
// the same through element loops the subset class uses: integer and logical targets
VP_HARNESS(bor_int) {
  int n = vp_pick(vp_int(1, BN)); int d[BN]; bool f[BN];
  Vec<int> a(SI{n}); Vec<bool> c(SI{n});
  for (int i = 0; i < n; i++) { d[i] = vp_int(-1000000, 1000000); a[i] = d[i]; f[i] = vp_bool(); c[i] = f[i]; }
  switch (vp_pick(vp_int(0, 4))) {
  case 0: a = subset(a, colon(n, 1)); c = subset(c, colon(n, 1)); for (int i = 0; i < n; i++) { vp_eqi(a[i], d[n - 1 - i], "int.rev"); vp_eqi(c[i], f[n - 1 - i], "lgl.rev"); } break;
  case 1: subset(a, colon(1, n)) = subset(a, colon(n, 1)); subset(c, colon(1, n)) = subset(c, colon(n, 1)); for (int i = 0; i < n; i++) { vp_eqi(a[i], d[n - 1 - i], "int.write"); vp_eqi(c[i], f[n - 1 - i], "lgl.write"); } break;
  case 2: a = a + a(n); for (int i = 0; i < n; i++) vp_eqi(a[i], d[i] + d[n - 1], "int.sum"); break;
  case 3: subset(a, colon(1, n)) = a + a(n) * 0.5; for (int i = 0; i < n; i++) vp_eqi(a[i], (int)(d[i] + d[n - 1] * 0.5), "int.expr"); break;
  case 4: c = c == c(n); for (int i = 0; i < n; i++) vp_eqi(c[i], f[i] == f[n - 1], "lgl.cmp"); break;
  }
}
