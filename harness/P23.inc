// BOUND: double, integer and logical variables of lengths 1..3 (5 thorough), matrices up to 3x3, const references, temporary results, borrowed vectors (also const), subsets by every kind of vector index and by row/column indices; loops that read, write, stop early, nest over the same variable, and loops after any 1 or 2 statements of 22 kinds over 2 variables
// OUTSIDE: loops over expressions that are not stored (do not compile); a loop over a subset of a temporary (the temporary ends before the loop starts); changing the length of the variable inside of the loop
#include "index.h"
#include "hist.h"
// visits: element i is want(i), n of them
template <typename V, typename W> void visit(V &&v, W want, int n, const char *id) {
  int k = 0;
  for (auto &&x : v) { if (k >= n) { k++; break; } vp_eq((double)x, (double)want(k), id); k++; }
  vp_eqi(k, n, id);
  vp_eqi((long)v.size(), n, id);
}
// writes w[k] at position k, stops after stop elements; returns the number visited
template <typename V, typename T> int writeTo(V &&v, const T *w, int stop) {
  int k = 0;
  for (auto &&x : v) { if (k >= stop) break; x = w[k]; k++; }
  return k;
}
template <typename T> T draw() { if constexpr (std::is_same_v<T, double>) return vp_double(); else if constexpr (std::is_same_v<T, int>) return vp_int(-2000000000, 2000000000); else return vp_bool(); }
template <typename T> void vars() {
  int n = vp_pick(vp_int(1, NMAX));
  T d[CAP], w[CAP];
  Vec<T> a(SI{n}), other(SI{n});
  for (int i = 0; i < n; i++) { d[i] = draw<T>(); a[i] = d[i]; other[i] = d[i]; w[i] = draw<T>(); }
  const auto &c = a;
  visit(a, [&](int i) { return d[i]; }, n, "for.variable");
  visit(c, [&](int i) { return d[i]; }, n, "for.const");
  // by value: copies never change the variable
  { int k = 0; for (auto x : a) { x = w[k]; k++; } vp_eqi(k, n, "for.byvalue"); }
  for (int i = 0; i < n; i++) vp_eq((double)a[i], (double)d[i], "for.byvalue");
  int stop = vp_pick(vp_int(0, n));
  vp_eqi(writeTo(a, w, stop), stop, "for.write.count");
  for (int i = 0; i < n; i++) { vp_eq((double)a[i], (double)(i < stop ? w[i] : d[i]), "for.write"); vp_eq((double)other[i], (double)d[i], "for.write.other"); }
  vp_eqi((long)a.size(), n, "for.write");
  // one nested in the other, over the same variable
  int q = 0;
  for (auto &x : a) { int r = 0; for (auto &y : a) { vp_eqi(&x == &y, q == r, "for.nested"); r++; if (r > n) break; } vp_eqi(r, n, "for.nested"); q++; if (q > n) break; }
  vp_eqi(q, n, "for.nested");
}
template <typename T> void mats() {
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)), n = r * c;
  T d[9], w[9];
  Vec<T> t(SI{n}); for (int i = 0; i < n; i++) { d[i] = draw<T>(); t[i] = d[i]; w[i] = draw<T>(); }
  Vec<T> a; a = t; a.d.setMatrix(true, r, c);
  visit(a, [&](int i) { return d[i]; }, n, "for.matrix");
  vp_eqi(writeTo(a, w, n), n, "for.matrix.write");
  for (int i = 0; i < n; i++) vp_eq((double)a[i], (double)w[i], "for.matrix.write");
  vp_eqi(a.im(), 1, "for.matrix.write"); vp_eqi((long)a.nr(), r, "for.matrix.write"); vp_eqi((long)a.nc(), c, "for.matrix.write");
  // rows, columns and blocks
  int i0 = vp_int(1, r), j0 = vp_int(1, c);
  visit(subset(a, i0, true), [&](int k) { return w[k * r + i0 - 1]; }, c, "for.row");
  visit(subset(a, true, j0), [&](int k) { return w[(j0 - 1) * r + k]; }, r, "for.column");
  Vec<int> ri(SI{2}), ci(SI{2}); int R[2], C[2]; for (int k = 0; k < 2; k++) { R[k] = vp_int(1, r); C[k] = vp_int(1, c); ri[k] = R[k]; ci[k] = C[k]; }
  visit(subset(a, ri, ci), [&](int k) { return w[(C[k / 2] - 1) * r + R[k % 2] - 1]; }, 4, "for.block");
  { int k = 0; for (auto &&x : subset(a, true, j0)) { x = d[k]; k++; if (k > r) break; } vp_eqi(k, r, "for.column.write"); }
  for (int i = 0; i < n; i++) vp_eq((double)a[i], (double)(i / r == j0 - 1 ? d[i % r] : w[i]), "for.column.write");
}
template <typename T> void borrowed() {
  int n = vp_pick(vp_int(0, NMAX));
  T mem[CAP], d[CAP], w[CAP];
  for (int i = 0; i < n + 2; i++) { d[i] = draw<T>(); mem[i] = d[i]; w[i] = draw<T>(); }
  Vec<T, Borrow<T>> b(mem + 1, (std::size_t)n);
  const auto &c = b;
  visit(b, [&](int i) { return d[i + 1]; }, n, "for.borrow");
  visit(c, [&](int i) { return d[i + 1]; }, n, "for.borrow.const");
  int stop = vp_pick(vp_int(0, n));
  vp_eqi(writeTo(b, w, stop), stop, "for.borrow.write");
  for (int i = 0; i < n + 2; i++) vp_eq((double)mem[i], (double)(i >= 1 && i <= stop ? w[i - 1] : d[i]), "for.borrow.write");
}
static void temps(int lo, int hi) {
  int n = vp_pick(vp_int(1, NMAX)), kind = vp_pick(vp_int(lo, hi));
  double d[CAP], s = vp_double(); int iv[CAP]; bool bv[CAP];
  sexp a = vector_numeric(int(n)); Vec<int> ai(SI{n}); Vec<bool> ab(SI{n});
  for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; iv[i] = vp_int(-30000, 30000); ai[i] = iv[i]; bv[i] = vp_bool(); ab[i] = bv[i]; }
  switch (kind) {
  case 0: visit(coca(a, s, a), [&](int i) { return i < n ? d[i] : i == n ? s : d[i - n - 1]; }, 2 * n + 1, "for.coca"); break;
  case 1: visit(rep(a, 2), [&](int i) { return d[i % n]; }, 2 * n, "for.rep"); break;
  case 2: { int f = vp_pick(vp_int(-2, 3)), t = vp_pick(vp_int(-2, 3)), k = f < t ? t - f + 1 : f - t + 1; visit(colon(f, t), [&](int i) { return f < t ? f + i : f - i; }, k, "for.colon"); break; }
  case 3: visit(vector_numeric(int(n)), [&](int) { return 0.0; }, n, "for.vector"); break;
  case 4: visit(coca(ai, ai), [&](int i) { return iv[i % n]; }, 2 * n, "for.coca.int"); break;
  case 5: visit(coca(ab, ab), [&](int i) { return bv[i % n]; }, 2 * n, "for.coca.logical"); break;
  case 6: visit(isNA(a), [&](int i) { return (bool)(d[i] != d[i]); }, n, "for.isNA"); break;
  case 7: { sexp t; t = a + s; visit(t, [&](int i) { return d[i] + s; }, n, "for.assigned"); break; }
  case 8: { sexp t; t = a; sexp u(std::move(t)); visit(u, [&](int i) { return d[i]; }, n, "for.moved"); visit(t, [&](int i) { return t[i]; }, (int)t.size(), "for.movedfrom"); break; }
  case 9: { // indices from a loop used to read another variable
    int k = 0; for (auto &i : colon(1, n)) { if (k >= n) { k++; break; } vp_eq(at(a, i), d[k], "for.index"); k++; } vp_eqi(k, n, "for.index"); break; }
  case 10: { // writing to another variable inside of the loop leaves the one looped over alone
    sexp t; t = a; int k = 0; for (auto &x : a) { if (k >= n) { k++; break; } t[k] = s; t = coca(t, x); k++; } vp_eqi(k, n, "for.other");
    for (int i = 0; i < n; i++) { vp_eq(a[i], d[i], "for.other"); vp_eq(t[i], s, "for.other"); vp_eq(t[n + i], d[i], "for.other"); } vp_eqi((long)t.size(), 2 * n, "for.other"); break; }
  }
}
template <typename T> void subsets(int lo, int hi) {
  int n = vp_pick(vp_int(1, NMAX)), kind = vp_pick(vp_int(lo, hi)); if (kind == 3 || kind == 4 || kind == 9) n = NMAX;
  Vec<T> a(SI{n}); T d[CAP], s = draw<T>();
  for (int i = 0; i < n; i++) { d[i] = draw<T>(); a[i] = d[i]; }
  Idx x;
  withIndex<0x1DFFF>(kind, x, n, [&](const auto &idx) {
    if (bad(x, n)) return;
    for (int i = 0; i < x.k; i++) { long p = vp_pick((int)x.p[i]); x.p[i] = p; }
    visit(subset(a, idx), [&](int i) { return d[x.p[i] - 1]; }, x.k, "for.subset");
    auto t = subset(a, idx);
    visit(t, [&](int i) { return d[x.p[i] - 1]; }, x.k, "for.subset.stored");
    int stop = vp_pick(vp_int(0, x.k)), k = 0;
    for (auto &&e : subset(a, idx)) { if (k >= stop) break; e = s; k++; }
    vp_eqi(k, stop, "for.subset.write");
    for (int i = 0; i < stop; i++) d[x.p[i] - 1] = s;
    for (int i = 0; i < n; i++) vp_eq((double)a[i], (double)d[i], "for.subset.write");
    vp_eqi((long)a.size(), n, "for.subset.write");
  });
}
template <int ST> void hist(int lo, int hi) {
  World<2> w; w.fresh(0, vp_pick(vp_int(1, 2))); w.fresh(1, vp_pick(vp_int(0, 3)));
  for (int k = 0; k < ST; k++) { int op = vp_pick(k == 0 ? vp_int(lo, hi) : vp_int(0, NOPS - 1)), x = vp_pick(vp_int(0, 1)); int y = vp_pick(vp_int(0, 1)); if (!step(w, op, x, y)) return; }
  for (int q = 0; q < 2; q++) {
    visit(w.v[q], [&](int i) { return w.m[q].d[i]; }, w.m[q].n, "for.history");
    double s = vp_double(); int k = 0;
    for (auto &e : w.v[q]) { if (k >= w.m[q].n) { k++; break; } e = s; w.m[q].d[k++] = s; }
    vp_eqi(k, w.m[q].n, "for.history");
  }
  w.check("for.history.write");
}
