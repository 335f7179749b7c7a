#pragma once
// Histories over K variables against a plain array model.
#include "etr_inc.h"
using namespace etr;
constexpr int HCAP = 24;
struct Mo { int n = 0; bool mat = false; int nr = 0, nc = 0; double d[HCAP]; };
static inline sexp byValue(const sexp &a) { sexp t; t = a; return t; }
template <int K> struct World {
  sexp v[K];
  Mo m[K];
  void fresh(int x, int n) {
    if (n == 0) return;
    v[x] = vector_numeric(n);
    m[x].n = n; m[x].mat = false;
    for (int i = 0; i < n; i++) { m[x].d[i] = vp_double(); v[x][i] = m[x].d[i]; }
  }
  void freshMat(int x, int r, int c) {
    v[x] = matrix(vector_numeric(r * c), int(r), int(c));
    m[x].n = r * c; m[x].mat = true; m[x].nr = r; m[x].nc = c;
    for (int i = 0; i < r * c; i++) { m[x].d[i] = vp_double(); v[x][i] = m[x].d[i]; }
  }
  void check(const char *id) const {
    for (int k = 0; k < K; k++) {
      vp_eqi((long)v[k].size(), m[k].n, id);
      vp_eqi(v[k].im(), m[k].mat, id);
      if (m[k].mat) { vp_eqi((long)v[k].nr(), m[k].nr, id); vp_eqi((long)v[k].nc(), m[k].nc, id); }
      for (int i = 0; i < m[k].n; i++) vp_eq(v[k][i], m[k].d[i], id);
    }
  }
  // shape of an elementwise combination; false if it is outside of what is claimed
  static bool shape(const Mo &a, const Mo &b, Mo &r) {
    r.n = a.n > b.n ? a.n : b.n;
    r.mat = a.mat || b.mat;
    if (a.mat && b.mat && (a.nr != b.nr || a.nc != b.nc)) return false;
    if (r.mat) {
      const Mo &s = a.mat ? a : b;
      if (r.n != s.n) return false;
      r.nr = s.nr; r.nc = s.nc;
    }
    return true;
  }
};
constexpr int NOPS = 22;
// one step; returns false (nothing done) if the step is not applicable
template <int K> bool step(World<K> &w, int op, int x, int y) {
  int z = (y + 1) % K;
  auto &v = w.v; auto &m = w.m;
  if (m[y].n == 0 && op != 3 && op != 9 && op != 10 && op != 17) return false;
  Mo r;
  switch (op) {
  case 0: v[x] = v[y]; r = m[y]; m[x] = r; break;
  case 1:
    if (m[z].n == 0 || !w.shape(m[y], m[z], r)) return false;
    v[x] = v[y] + v[z];
    for (int i = 0; i < r.n; i++) r.d[i] = m[y].d[i % m[y].n] + m[z].d[i % m[z].n];
    m[x] = r; break;
  case 2:
    if (m[x].n == 0 || !w.shape(m[x], m[y], r)) return false;
    v[x] = v[x] * 2.0 - v[y];
    for (int i = 0; i < r.n; i++) r.d[i] = m[x].d[i % m[x].n] * 2.0 - m[y].d[i % m[y].n];
    m[x] = r; break;
  case 3: { double s = vp_double(); v[x] = s; m[x].n = 1; m[x].mat = false; m[x].d[0] = s; break; }
  case 4:
    if (m[x].n == 0 || m[x].n + m[y].n > HCAP) return false;
    v[x] = coca(v[x], v[y]);
    r.n = m[x].n + m[y].n;
    for (int i = 0; i < r.n; i++) r.d[i] = i < m[x].n ? m[x].d[i] : m[y].d[i - m[x].n];
    m[x] = r; break;
  case 5: {
    int k = vp_pick(vp_int(1, 3));
    Vec<int> idx(SI{k});
    r.n = k;
    for (int i = 0; i < k; i++) { int j = vp_int(1, m[y].n); idx[i] = j; r.d[i] = m[y].d[j - 1]; }
    v[x] = subset(v[y], idx);
    m[x] = r; break; }
  case 6: v[x] = -v[y]; r = m[y]; for (int i = 0; i < r.n; i++) r.d[i] = -m[y].d[i]; m[x] = r; break;
  case 7: { double s = vp_double(); sexp t = v[y]; t[0] = s; v[x] = t; r = m[y]; r.d[0] = s; m[x] = r; t[0] = 1.0; break; }
  case 8: { int i = vp_int(0, m[y].n - 1); double s = vp_double(); v[y][i] = s; m[y].d[i] = s; break; }
  case 9: w.fresh(x, vp_pick(vp_int(0, 1)) ? 9 : 2); break;
  case 10: w.freshMat(x, 2, vp_pick(vp_int(1, 3))); break;
  case 11: { double s = vp_double(); v[y].fill(s); for (int i = 0; i < m[y].n; i++) m[y].d[i] = s; break; }
  case 12: { double s = vp_double(); r = m[y]; sexp t(std::move(v[y])); v[y] = s; m[y].n = 1; m[y].mat = false; m[y].d[0] = s; v[x] = t; m[x] = r; break; }
  case 13:
    if (m[y].n * 2 > HCAP) return false;
    v[x] = rep(v[y], 2); r.n = 2 * m[y].n;
    for (int i = 0; i < r.n; i++) r.d[i] = m[y].d[i % m[y].n];
    m[x] = r; break;
  case 14:
    if (m[x].n == 0 || !w.shape(m[x], m[y], r)) return false;
    v[x] = v[x] < v[y];
    for (int i = 0; i < r.n; i++) r.d[i] = m[x].d[i % m[x].n] < m[y].d[i % m[y].n];
    m[x] = r; break;
  case 15: { // write through a subset of x, values of y
    if (m[x].n == 0) return false;
    Vec<int> idx(SI{m[y].n});
    Mo t = m[y];
    for (int i = 0; i < t.n; i++) { int j = vp_int(1, m[x].n); idx[i] = j; m[x].d[j - 1] = t.d[i]; }
    subset(v[x], idx) = v[y];
    break; }
  case 16: {
    Vec<int> t(SI{2}); int a = vp_int(-1000, 1000), b = vp_int(-1000, 1000); t[0] = a; t[1] = b;
    if (m[y].mat && m[y].n < 2) return false;
    v[x] = v[y] + t;
    r = m[y]; if (r.n < 2) r.n = 2;
    for (int i = 0; i < r.n; i++) r.d[i] = m[y].d[i % m[y].n] + (double)(i % 2 ? b : a);
    m[x] = r; break; }
  case 17: v[x] = colon(1, 3); r.n = 3; for (int i = 0; i < 3; i++) r.d[i] = i + 1; m[x] = r; break;
  case 18: { // column of a matrix
    if (!m[y].mat) return false;
    int c = vp_int(1, m[y].nc);
    r.n = m[y].nr;
    for (int i = 0; i < r.n; i++) r.d[i] = m[y].d[(c - 1) * m[y].nr + i];
    v[x] = subset(v[y], true, c);
    m[x] = r; break; }
  case 19: v[x] = byValue(v[y]); r = m[y]; m[x] = r; break;
  case 20: { // nested temporaries that read the target
    if (m[x].n == 0 || m[y].mat || m[x].n + m[y].n > HCAP) return false;
    v[x] = coca(v[y], v[x]) + v[y] * 3.0;
    r.n = m[x].n + m[y].n;
    for (int i = 0; i < r.n; i++) r.d[i] = (i < m[y].n ? m[y].d[i] : m[x].d[i - m[y].n]) + m[y].d[i % m[y].n] * 3.0;
    m[x] = r; break; }
  case 21: { double s = vp_double(); subset(v[y], colon(1, 1)) = s; m[y].d[0] = s; break; }
  default: return false;
  }
  return true;
}
