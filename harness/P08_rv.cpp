// OUTSIDE: indices beyond the length of an expression or subset (only variables are range checked)
#include "index.h"
// subsets of temporaries, expressions and subsets: values at valid positions
template <typename V, typename E> static void readR(V &&v, E e, int n, int kind) {
  Idx x;
  withIndex(kind, x, n, [&](const auto &idx) {
    vp_assume(!bad(x, n));
    sexp r; r = subset(std::move(v), idx);
    vp_eqi((long)r.size(), x.k, "rv.size");
    for (int i = 0; i < x.k; i++) { double w = e(0); for (int j = 1; j < n; j++) w = x.p[i] == j + 1 ? (double)e(j) : w; vp_eq(r[i], w, "rv.elem"); }
  });
}
static void target(int t, int kind) {
  int n = vp_pick(vp_int(1, NMAX - 1));
  sexp a = vector_numeric(n); double d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; }
  double s = vp_double();
  switch (t) {
  case 0: readR(coca(a, s), [&](int i) { return i < n ? d[i] : s; }, n + 1, kind); break;
  case 1: readR(a - s, [&](int i) { return d[i] - s; }, n, kind); break;
  case 2: { Vec<int> o(SI{n}); int p[NMAX]; for (int i = 0; i < n; i++) { p[i] = vp_int(1, n); o[i] = p[i]; }
    readR(subset(a, o), [&](int i) { return d[p[i] - 1]; }, n, kind); break; }
  case 3: readR(-a, [&](int i) { return -d[i]; }, n, kind); break;
  case 4: readR(a > s, [&](int i) { return (double)(d[i] > s); }, n, kind); break;
  case 5: readR(rep(a, 2), [&](int i) { return d[i % n]; }, 2 * n, kind); break;
  }
  vp_eqi((long)a.size(), n, "rv.source_size");
  for (int i = 0; i < n; i++) vp_eq(a[i], d[i], "rv.source");
}
#define T(k, name) VP_HARNESS(rv_##name) { target(vp_pick(vp_int(0, 5)), k); }
VP_HARNESS(rv_vdbl) { target(vp_pick(vp_int(1, 2)), 4); }
T(0, all) T(1, int) T(2, dbl) T(3, vint) T(5, vlgl) T(6, colon) T(9, expr) T(10, cmp) T(11, sub) T(13, cocab)
// the variable itself as its index, and chains of subsets
VP_HARNESS(rv_self) {
  int n = vp_pick(vp_int(1, NMAX));
  Vec<int> a(SI{n}); int d[NMAX]; for (int i = 0; i < n; i++) { d[i] = vp_int(1, n); a[i] = d[i]; }
  sexp r; r = a(a);
  vp_eqi((long)r.size(), n, "self.size");
  for (int i = 0; i < n; i++) vp_eq(r[i], (double)d[d[i] - 1], "self.elem");
  r = subset(a(a), a);
  for (int i = 0; i < n; i++) vp_eq(r[i], (double)d[d[d[i] - 1] - 1], "self.chain");
  r = a(a(a));
  for (int i = 0; i < n; i++) vp_eq(r[i], (double)d[d[d[i] - 1] - 1], "self.nested");
  r = a(a == a(1)); int k = 0; for (int i = 0; i < n; i++) k += d[i] == d[0];
  vp_eqi((long)r.size(), k, "self.cmp_size"); for (int i = 0; i < k; i++) vp_eq(r[i], (double)d[0], "self.cmp");
  Vec<int> b; b = a(n); vp_eqi(b[0], d[n - 1], "self.last"); vp_eqi((int)a(n), d[n - 1], "self.scalar");
  vp_check(vp_throws([&] { r = a(false); }), "self.false");
}
