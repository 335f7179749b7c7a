// BOUND: matrices of 1..3 rows and 1..3 columns (quick: 2x3 and 3x2), index vectors of 1..2 entries (3 thorough) with any value in -2..n+2 (int) or |x| <= 1e6 (double), logical indices of length 1..n+1
// OUTSIDE: double indices that are NaN, infinite or above 1e6; two-index subsets of expressions and subsets beyond their dimensions
#ifdef VP_THOROUGH
#define KMAX 3
#else
#define KMAX 2
#endif
#include "index.h"
constexpr int MC = 9;
constexpr int isVecKind(int k) { return k != 1 && k != 2; }
static void dims(int &r, int &c) {
#ifdef VP_THOROUGH
  r = vp_pick(vp_int(1, 3)); c = vp_pick(vp_int(1, 3));
#else
  static const int R[] = {2, 3}, C[] = {3, 2};
  int s = vp_pick(vp_int(0, 1)); r = R[s]; c = C[s];
#endif
}
template <unsigned MR = ~0u, unsigned MCL = ~0u, typename V, typename T> void readM(V &m, const T *d, int r, int c, int rk, int ck, const char *id) {
  Idx x, y;
  withIndex<MR>(rk, x, r, [&](const auto &ri) {
    withIndex<MCL>(ck, y, c, [&](const auto &ci) {
      bool b = bad(x, r) | bad(y, c) | x.tooLong | y.tooLong;
      sexp q;
      bool t = vp_throws([&] { q = subset(m, ri, ci); });
      vp_eqi(t, b, "mread.error");
      if (b) return;
      vp_eqi((long)q.size(), (long)x.k * y.k, "mread.size");
      bool mat = isVecKind(rk) && isVecKind(ck);
      vp_eqi(q.im(), mat, "mread.ismatrix");
      if (mat) { vp_eqi((long)q.nr(), x.k, "mread.rows"); vp_eqi((long)q.nc(), y.k, "mread.cols"); }
      for (int j = 0; j < y.k; j++) for (int i = 0; i < x.k; i++)
        vp_eq(q[j * x.k + i], (double)d[(y.p[j] - 1) * r + x.p[i] - 1], id);
    });
  });
  vp_eqi((long)m.size(), r * c, "mread.source_size"); vp_eqi(m.im(), 1, "mread.source_matrix");
  vp_eqi((long)m.nr(), r, "mread.source_rows"); vp_eqi((long)m.nc(), c, "mread.source_cols");
  for (int i = 0; i < r * c; i++) vp_eq((double)m[i], (double)d[i], "mread.source");
}
static sexp mkM(int r, int c, double *d) {
  sexp m; m = matrix(vector_numeric(r * c), int(r), int(c));
  for (int i = 0; i < r * c; i++) { d[i] = vp_double(); m[i] = d[i]; }
  return m;
}
template <unsigned MR, unsigned MCL> static void readNum(int rk, int ck) {
  int r, c; dims(r, c);
  double d[MC]; sexp m; m = mkM(r, c, d);
  readM<MR, MCL>(m, d, r, c, rk, ck, "mread.elem");
}
#define READ(rk, ck) readNum<1u << (rk), 1u << (ck)>(rk, ck)
