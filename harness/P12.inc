// BOUND: variables of length 1..3 (5 thorough), matrices of 1..3 rows and columns, integer positions in -1000..1000, double positions with |x| <= 1e6
// OUTSIDE: double positions that are NaN, infinite or beyond 1e6; at on temporaries
#include "operands.h"
#ifdef VP_THOROUGH
#define WIDE 100000
#else
#define WIDE 1000
#endif
constexpr int MC = 9;
template <typename T> static T anyT() { if constexpr (std::is_same_v<T, double>) return vp_double(); else if constexpr (std::is_same_v<T, int>) return vp_int(-30000, 30000); else return vp_bool(); }
// one element by position: reading, writing, and errors
template <typename T, typename V, typename I> void one(V &v, T *d, int n, I i, int p) {
  bool bad = (p < 1) | (p > n);
  T got{}; T w = anyT<T>();
  vp_eqi(vp_throws([&] { got = at(v, i); }), bad, "at.read_error");
  if (!bad) vp_eq((double)got, (double)d[p - 1], "at.read");
  vp_eqi(vp_throws([&] { at(v, i) = w; }), bad, "at.write_error");
  if (!bad) d[p - 1] = w;
  for (int k = 0; k < n; k++) vp_eq((double)v[k], (double)d[k], "at.elem");
  vp_eqi((long)v.size(), n, "at.size");
}
template <typename T, typename V, typename R, typename C> void cell(V &m, T *d, int r, int c, R i, C j, int pi, int pj) {
  bool bad = (pi < 1) | (pi > r) | (pj < 1) | (pj > c);
  T got{}; T w = anyT<T>();
  vp_eqi(vp_throws([&] { got = at(m, i, j); }), bad, "at.cell_error");
  if (!bad) vp_eq((double)got, (double)d[(pj - 1) * r + pi - 1], "at.cell");
  vp_eqi(vp_throws([&] { at(m, i, j) = w; }), bad, "at.cellw_error");
  if (!bad) d[(pj - 1) * r + pi - 1] = w;
  for (int k = 0; k < r * c; k++) vp_eq((double)m[k], (double)d[k], "at.cells");
  vp_eqi((long)m.size(), r * c, "at.msize"); vp_eqi(m.im(), 1, "at.matrix"); vp_eqi((long)m.nr(), r, "at.rows"); vp_eqi((long)m.nc(), c, "at.cols");
}
template <typename T, typename V> void ones(V &v, T *d, int n) {
  if (vp_pick(vp_int(0, 1))) { int i = vp_int(-WIDE, WIDE); one(v, d, n, i, i); } else { double i = vp_frac(-1000000, 1000000); one(v, d, n, i, (int)i); }
}
template <typename T, typename V> void cells(V &m, T *d, int r, int c) {
  int k = vp_pick(vp_int(0, 3));
  if (k == 0) { int i = vp_int(-WIDE, WIDE), j = vp_int(-WIDE, WIDE); cell(m, d, r, c, i, j, i, j); }
  if (k == 1) { int i = vp_int(-WIDE, WIDE); double j = vp_frac(-WIDE, WIDE); cell(m, d, r, c, i, j, i, (int)j); }
  if (k == 2) { double i = vp_frac(-WIDE, WIDE); int j = vp_int(-WIDE, WIDE); cell(m, d, r, c, i, j, (int)i, j); }
  if (k == 3) { double i = vp_frac(-WIDE, WIDE), j = vp_frac(-WIDE, WIDE); cell(m, d, r, c, i, j, (int)i, (int)j); }
}
// cells of matrices which are not variables can only be read
template <typename M, typename T, typename R, typename C> void rcell(const M &m, const T *d, int r, int c, R i, C j, int pi, int pj) {
  bool bad = (pi < 1) | (pi > r) | (pj < 1) | (pj > c); double got = 0;
  vp_eqi(vp_throws([&] { got = at(m, i, j); }), bad, "at.value_error");
  if (!bad) vp_eq(got, (double)d[(pj - 1) * r + pi - 1], "at.value");
}
template <typename M, typename T> void rcells(const M &m, const T *d, int r, int c) {
  int i = vp_int(-WIDE, WIDE), j = vp_int(-WIDE, WIDE); double x = vp_frac(-WIDE, WIDE), y = vp_frac(-WIDE, WIDE);
  int k = vp_pick(vp_int(0, 3));
  if (k == 0) rcell(m, d, r, c, i, j, i, j);
  if (k == 1) rcell(m, d, r, c, i, y, i, (int)y);
  if (k == 2) rcell(m, d, r, c, x, j, (int)x, j);
  if (k == 3) rcell(m, d, r, c, x, y, (int)x, (int)y);
}
