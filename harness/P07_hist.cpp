// BOUND: borrowed memory of 1..4 (thorough 1..6) elements inside a larger block with guard cells, histories of 2 (thorough 3) operations from 21 with symbolic contents and indices; borrowed matrices up to 3x3
// OUTSIDE: borrowed memory that the caller frees while it is in use; R objects
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int DEPTH = 3, BN = 6;
#else
constexpr int DEPTH = 2, BN = 4;
#endif
using BV = Vec<double, Borrow<double>>;
constexpr int G = 2;
struct BW {
  double mem[BN + 2 * G], g[BN + 2 * G];
  double d[BN];          // expected elements
  int n, sz;
  bool mat = false; int nr = 0, nc = 0;
  void check(const BV &b) {
    vp_eqi((long)b.size(), sz, "borrow.size");
    vp_eqi(b.im(), mat, "borrow.matrix");
    if (mat) { vp_eqi((long)b.nr(), nr, "borrow.nrow"); vp_eqi((long)b.nc(), nc, "borrow.ncol"); }
    for (int i = 0; i < n; i++) vp_eq(mem[G + i], d[i], "borrow.memory");
    for (int i = 0; i < sz; i++) vp_eq(b[i], d[i], "borrow.elem");
    for (int i = 0; i < G; i++) { vp_eq(mem[i], g[i], "borrow.guard"); vp_eq(mem[G + n + i], g[G + n + i], "borrow.guard"); }
  }
};
constexpr int BOPS = 21;
static void bstep(BW &w, BV &b, int op) {
  double old[BN];
  for (int i = 0; i < w.n; i++) old[i] = w.d[i];
  switch (op) {
  case 0: { int i = vp_int(-2, BN + 8); double s = vp_double(); bool in = (i >= 0) & (i < w.sz);
    vp_eqi(vp_throws([&] { b[i] = s; }), !in, "borrow.write_bounds"); if (in) w.d[i] = s;
    const BV &c = b; vp_eqi(vp_throws([&] { vp_obs(c[i]); }), !in, "borrow.read_bounds"); break; }
  case 1: { int i = vp_int(0, w.n - 1); double s = vp_double(); w.mem[G + i] = s; w.d[i] = s; break; } // the caller writes
  case 2: { double s = vp_double(); b = s; w.d[0] = s; w.sz = 1; w.mat = false; break; }
  case 3: { // a variable of any length
    int k = vp_pick(vp_int(1, w.n + 2));
    sexp a = vector_numeric(k); double v[BN + 2];
    for (int i = 0; i < k; i++) { v[i] = vp_double(); a[i] = v[i]; }
    bool fits = k <= w.n && k >= w.sz;
    vp_eqi(vp_throws([&] { b = a; }), !fits, "borrow.assign_fits");
    if (fits) { for (int i = 0; i < k; i++) w.d[i] = v[i]; w.sz = k; w.mat = false; }
    for (int i = 0; i < k; i++) vp_eq(a[i], v[i], "borrow.source");
    break; }
  case 4: { double s = vp_double(); b = b * s + b; for (int i = 0; i < w.sz; i++) w.d[i] = old[i] * s + old[i]; break; }
  case 5: b = subset(b, colon(w.sz, 1)); for (int i = 0; i < w.sz; i++) w.d[i] = old[w.sz - 1 - i]; w.mat = false; break;
  case 6: { double s = vp_double(); b.fill(s); for (int i = 0; i < w.sz; i++) w.d[i] = s; break; }
  case 7: { // fill with a variable
    int k = vp_pick(vp_int(1, w.n + 1)); sexp a = vector_numeric(k); double v[BN + 1];
    for (int i = 0; i < k; i++) { v[i] = vp_double(); a[i] = v[i]; }
    vp_eqi(vp_throws([&] { b.d.fill(a); }), k != w.sz, "borrow.fill_length");
    if (k == w.sz) for (int i = 0; i < k; i++) w.d[i] = v[i];
    break; }
  case 8: { int k = vp_pick(vp_int(1, 3)); // fill with a temporary
    vp_eqi(vp_throws([&] { b.d.fill(rep(b, k)); }), k != 1, "borrow.fill_temp"); break; }
  case 9: { int i = vp_int(1, w.sz); double s = vp_double(); subset(b, i) = s; w.d[i - 1] = s; break; }
  case 10: { int i = vp_int(1, w.sz); double s = vp_double(); at(b, i) = s; w.d[i - 1] = s; break; }
  case 11: { // longer than the memory
    vp_check(vp_throws([&] { b = rep(b, BN + 1); }), "borrow.too_long");
    vp_check(vp_throws([&] { b = coca(1, 2, 3, 4, 5, 6, 7, 8); }), "borrow.too_long2");
    vp_check(vp_throws([&] { b.resize(w.n + 1); }), "borrow.resize_too_long"); break; }
  case 12: { sexp c; c = b; vp_eqi((long)c.size(), w.sz, "borrow.copy_size"); vp_eqi(c.im(), w.mat, "borrow.copy_matrix"); c = c + 1.0; c[0] = 5.0; c.fill(2.0); break; } // copies are independent
  case 13: { for (auto &x : b) x = 3.0; for (int i = 0; i < w.sz; i++) w.d[i] = 3.0; break; }
  case 14: { subset(b, colon(1, w.sz)) = b + b; for (int i = 0; i < w.sz; i++) w.d[i] = old[i] + old[i]; break; }
  case 15: { // error while the right hand side is evaluated
    vp_check(vp_throws([&] { b = subset(b, w.sz + 1) + 1.0; }), "borrow.error"); break; }
  case 16: { // another vector borrowing the same memory
    BV o(w.mem + G, (std::size_t)w.n); double s = vp_double(); int i = vp_int(0, w.n - 1); o[i] = s; w.d[i] = s; vp_eq(o[w.n - 1], w.d[w.n - 1], "borrow.alias"); break; }
  case 17: b = b; break;
  case 18: { int s = vp_int(-1000, 1000); bool t = vp_bool(); // scalars of the other types
    if (vp_pick(vp_int(0, 1))) { b = s; w.d[0] = s; } else { b = t; w.d[0] = t; }
    w.sz = 1; w.mat = false; break; }
  case 19: { // integer and logical variables of any length
    int k = vp_pick(vp_int(1, w.n + 1)); Vec<int> a(SI{k}); Vec<bool> c(SI{k}); int v[BN + 1]; bool f[BN + 1];
    for (int i = 0; i < k; i++) { v[i] = vp_int(-1000, 1000); a[i] = v[i]; f[i] = vp_bool(); c[i] = f[i]; }
    bool fits = k <= w.n && k >= w.sz, lg = vp_pick(vp_int(0, 1));
    if (lg) vp_eqi(vp_throws([&] { b = c; }), !fits, "borrow.assign_lgl"); else vp_eqi(vp_throws([&] { b = a; }), !fits, "borrow.assign_int");
    if (fits) { for (int i = 0; i < k; i++) w.d[i] = lg ? (double)f[i] : (double)v[i]; w.sz = k; w.mat = false; }
    break; }
  case 20: { int s = vp_int(-1000, 1000); // fill with other types
    int m = vp_pick(vp_int(0, 2));
    if (m == 0) { b.fill(s); for (int i = 0; i < w.sz; i++) w.d[i] = s; }
    else if (m == 1) { b.fill(true); for (int i = 0; i < w.sz; i++) w.d[i] = 1.0; }
    else { int k = w.sz; Vec<int> a(SI{k}); for (int i = 0; i < k; i++) a[i] = s + i; b.d.fill(a); for (int i = 0; i < k; i++) w.d[i] = s + i; }
    break; }
  }
}
static void bhist(int lo, int hi) {
  long live = vp_heap_live();
  {
    BW w;
    int init = vp_pick(vp_int(0, 3));
    static const int N[] = {1, 3, BN, 4};
    w.n = w.sz = N[init];
    for (int i = 0; i < w.n + 2 * G; i++) w.mem[i] = w.g[i] = vp_double();
    for (int i = 0; i < w.n; i++) w.d[i] = w.mem[G + i];
    if (init == 3) { w.mat = true; w.nr = w.nc = 2; }
    BV v1(w.mem + G, (std::size_t)w.n), m1(w.mem + G, 2, (std::size_t)(w.n / 2));
    BV &b = init == 3 ? m1 : v1;
    w.check(b);
    for (int k = 0; k < DEPTH; k++) {
      bstep(w, b, vp_pick(k ? vp_int(0, BOPS - 1) : vp_int(lo, hi)));
      w.check(b);
    }
  }
  vp_eqi(vp_heap_live() - live, 0, "borrow.leak");
}
VP_HARNESS(bhist_0) { bhist(0, 1); }
VP_HARNESS(bhist_2) { bhist(2, 2); }
VP_HARNESS(bhist_3) { bhist(3, 3); }
VP_HARNESS(bhist_4) { bhist(4, 6); }
VP_HARNESS(bhist_7) { bhist(7, 7); }
VP_HARNESS(bhist_8) { bhist(8, 10); }
VP_HARNESS(bhist_11) { bhist(11, 13); }
VP_HARNESS(bhist_14) { bhist(14, 17); }
VP_HARNESS(bhist_18) { bhist(18, 18); }
VP_HARNESS(bhist_19) { bhist(19, 19); }
VP_HARNESS(bhist_20) { bhist(20, 20); }
