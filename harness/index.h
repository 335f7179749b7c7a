#pragma once
// Every kind of vector index, with the 1-based positions it selects from n elements.
#include "operands.h"
#ifndef KMAX
#define KMAX NMAX
#endif
struct Idx {
  int k = 0; bool tooLong = false; long p[12];
  Vec<int> vi, vj; Vec<bool> vb; sexp vd;
  double raw[8]; int is; double ds;
  void ints(int kk, int n) { k = kk; vi = Vec<int>(SI{k}); for (int i = 0; i < k; i++) { int x = vp_int(-2, n + 2); vi[i] = x; p[i] = x; } }
  void dbls(int kk) { k = kk; vd = vector_numeric(k); for (int i = 0; i < k; i++) { double x = vp_frac(-1000000, 1000000); vd[i] = x; raw[i] = x; p[i] = (long)x; } }
  void lgls(int m, int n) { bool b[12]; tooLong = m > n; vb = Vec<bool>(SI{m}); for (int i = 0; i < m; i++) { b[i] = vp_bool(); vb[i] = b[i]; }
    k = 0; for (int i = 0; i < n; i++) if (b[i % m]) p[k++] = i + 1; }
};
constexpr int IKINDS = 17;
// f(index) is called with the index object.
template <unsigned MASK = ~0u, typename F> void withIndex(int kind, Idx &x, int n, F f) {
  const int K = kind == 3 || kind == 4 || kind == 9 || kind == 11 || kind == 12 || kind == 15 ? vp_pick(vp_int(1, KMAX)) : 0;
  switch (kind) {
  case 0: if constexpr (MASK >> 0 & 1) { bool t = true; x.k = n; for (int i = 0; i < n; i++) x.p[i] = i + 1; f(t); } break;
  case 1: if constexpr (MASK >> 1 & 1) { x.is = vp_int(-3, n + 3); x.k = 1; x.p[0] = x.is; f(x.is); } break;
  case 2: if constexpr (MASK >> 2 & 1) { x.ds = vp_frac(-1000000, 1000000); x.k = 1; x.p[0] = (long)x.ds; f(x.ds); } break;
  case 3: if constexpr (MASK >> 3 & 1) { x.ints(K, n); f(x.vi); } break;
  case 4: if constexpr (MASK >> 4 & 1) { x.dbls(K); f(x.vd); } break;
  case 5: if constexpr (MASK >> 5 & 1) { x.lgls(vp_pick(vp_int(1, n + 1)), n); f(x.vb); } break;
  case 6: if constexpr (MASK >> 6 & 1) { int a = vp_pick(vp_int(1, n)), b = vp_pick(vp_int(1, n + 1)); x.k = a < b ? b - a + 1 : a - b + 1;
    for (int i = 0; i < x.k; i++) x.p[i] = a <= b ? a + i : a - i; f(colon(a, b)); } break;
  case 7: if constexpr (MASK >> 7 & 1) { x.ints(2, n); x.is = vp_int(-2, n + 2); x.k = 3; x.p[2] = x.is; f(coca(x.vi, x.is)); } break;
  case 8: if constexpr (MASK >> 8 & 1) { x.dbls(1); x.is = vp_int(-2, n + 2); x.k = 2; x.p[1] = x.p[0]; x.p[0] = x.is; f(coca(x.is, x.vd)); } break;
  case 9: if constexpr (MASK >> 9 & 1) { x.ints(K, n); x.is = vp_int(-1, 1); for (int i = 0; i < x.k; i++) x.p[i] += x.is; f(x.vi + x.is); } break;
  case 10: if constexpr (MASK >> 10 & 1) { x.vd = vector_numeric(n); x.ds = vp_double(); x.k = 0; for (int i = 0; i < n; i++) { double e = vp_double(); x.vd[i] = e; if (e > x.ds) x.p[x.k++] = i + 1; } f(x.vd > x.ds); } break;
  case 11: if constexpr (MASK >> 11 & 1) { x.ints(K, n); x.k = 2; int i = vp_int(1, K), j = vp_int(1, K); x.vj = coca(i, j); long a = x.vi[i - 1], b = x.vi[j - 1]; x.p[0] = a; x.p[1] = b; f(subset(x.vi, x.vj)); } break;
  case 12: if constexpr (MASK >> 12 & 1) { x.dbls(K); const Vec<double, Borrow<double>> b(x.raw, (std::size_t)K); f(b); } break;
  case 13: if constexpr (MASK >> 13 & 1) { bool a = vp_bool(), b = vp_bool(); x.k = 0; for (int i = 0; i < n; i++) if (i % 2 ? b : a) x.p[x.k++] = i + 1; f(coca(a, b)); } break;
  case 14: if constexpr (MASK >> 14 & 1) { x.lgls(n, n); x.vi = Vec<int>(SI{n}); for (int i = 0; i < n; i++) { int q = vp_int(1, n); x.vi[i] = q; } // logical subset of an index vector
    int m = 0; long q[12]; for (int i = 0; i < x.k; i++) q[m++] = x.vi[x.p[i] - 1]; for (int i = 0; i < m; i++) x.p[i] = q[i];
    if (m) f(subset(x.vi, x.vb)); } break;
  case 15: if constexpr (MASK >> 15 & 1) { x.ints(K, n); for (int i = 0; i < x.k; i++) x.p[i] = -x.p[i]; f(-x.vi); } break;
  case 16: if constexpr (MASK >> 16 & 1) { x.lgls(n, n); x.ds = 0.0; int m = 0; bool b[12]; for (int i = 0; i < n; i++) b[i] = !x.vb[i]; for (int i = 0; i < n; i++) if (b[i]) x.p[m++] = i + 1; x.k = m; f(x.vb == false); } break;
  }
}
static inline bool bad(const Idx &x, int n) { bool r = x.k == 0; for (int i = 0; i < x.k; i++) r = r | (x.p[i] < 1) | (x.p[i] > n); return r; }
