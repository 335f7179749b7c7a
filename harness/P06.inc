// Memory histories over two vectors of element type T; memory errors are found by the
// engine on every access, the model follows lengths and contents, and at the end every
// heap block must be gone.
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int DEPTH = 3;
#else
constexpr int DEPTH = 2;
#endif
constexpr int PCAP = 64;
template <typename T> struct St { int n = 0; T d[PCAP]; };
template <typename T> T any() { if constexpr (std::is_same_v<T, double>) return vp_double(); else if constexpr (std::is_same_v<T, int>) return vp_int(-1000, 1000); else return vp_bool(); }
template <typename T> struct W {
  Vec<T> v[2];
  St<T> m[2];
  void set(int x, int n) {
    if (n == 0) return;
    v[x] = Vec<T>(SI{n});
    m[x].n = n;
    for (int i = 0; i < n; i++) { m[x].d[i] = any<T>(); v[x][i] = m[x].d[i]; }
  }
  void check() const {
    for (int k = 0; k < 2; k++) {
      vp_eqi((long)v[k].size(), m[k].n, "mem.size");
      for (int i = 0; i < m[k].n; i++) vp_eq((double)v[k][i], (double)m[k].d[i], "mem.elem");
    }
  }
};
constexpr int PSZ[] = {1, 7, 14};
constexpr int POPS = 26;
template <typename T> bool pstep(W<T> &w, int op, int x, int y) {
  auto &v = w.v; auto &m = w.m;
  St<T> r;
  switch (op) {
  case 0: if (m[y].n == 0) { vp_check(vp_throws([&] { v[x] = v[y]; }), "mem.empty_assign"); break; } v[x] = v[y]; r = m[y]; m[x] = r; break;
  case 1: { int k = PSZ[vp_pick(vp_int(0, 2))]; v[x] = vector_numeric(k); m[x].n = k; for (int i = 0; i < k; i++) m[x].d[i] = 0; break; }
  case 2: if (!m[x].n || !m[y].n) return false;
    v[x] = v[x] < v[y]; r.n = m[x].n > m[y].n ? m[x].n : m[y].n;
    for (int i = 0; i < r.n; i++) r.d[i] = m[x].d[i % m[x].n] < m[y].d[i % m[y].n];
    m[x] = r; break;
  case 3: { if (!m[y].n) return false; Vec<T> t(v[y]); v[x] = t; r = m[y]; m[x] = r; break; }
  case 4: { if (!m[y].n) return false; T s = any<T>(); Vec<T> t(std::move(v[y])); r = m[y]; v[y] = s; m[y].n = 1; m[y].d[0] = s; v[x] = t; m[x] = r; break; }
  case 5: { T s = any<T>(); if (!m[x].n) return false; v[x].fill(s); for (int i = 0; i < m[x].n; i++) m[x].d[i] = s; break; }
  case 6: if (m[x].n != m[y].n) { vp_check(vp_throws([&] { v[x].d.fill(v[y]); }), "mem.fill_mismatch"); break; }
    if (!m[x].n) return false;
    v[x].d.fill(v[y]); r = m[y]; m[x] = r; break;
  case 7: if (!m[x].n || !m[y].n) return false;
    if (m[x].n != 2 * m[y].n) { vp_check(vp_throws([&] { v[x].d.fill(rep(v[y], 2)); }), "mem.fill_temp_mismatch"); break; }
    v[x].d.fill(rep(v[y], 2)); for (int i = 0; i < m[x].n; i++) m[x].d[i] = m[y].d[i % m[y].n]; break;
  case 8: if (!m[x].n) return false;
    { Vec<T> t = rep(v[x], 1); v[x].d.fill(rep(t, 1)); vp_check((long)v[x].d.capacity >= m[x].n, "mem.capacity"); } break;
  case 9: { // any index: in range works, out of range is an error and changes nothing
    int i = vp_int(-3, 70); T s = any<T>();
    bool in = (i >= 0) & (i < m[x].n);
    vp_eqi(vp_throws([&] { v[x][i] = s; }), !in, "mem.write_bounds");
    const auto &c = v[x];
    vp_eqi(vp_throws([&] { vp_obs((double)c[i]); }), !in, "mem.read_bounds");
    if (in) m[x].d[i] = s;
    break; }
  case 10: if (m[x].n >= PCAP) return false; { T s = any<T>(); v[x].d.push_back(s); m[x].d[m[x].n++] = s; } break;
  case 11: { int k = PSZ[vp_pick(vp_int(0, 2))]; if (!m[x].n) return false; v[x].d.realloc(k); for (int i = m[x].n; i < k; i++) m[x].d[i] = T(); m[x].n = k; break; }
  case 12: { T s = any<T>(); v[x] = s; m[x].n = 1; m[x].d[0] = s; break; }
  case 13: if (!m[x].n || !m[y].n || m[x].n + m[y].n > PCAP) return false;
    v[x] = coca(v[x], v[y]); r.n = m[x].n + m[y].n;
    for (int i = 0; i < r.n; i++) r.d[i] = i < m[x].n ? m[x].d[i] : m[y].d[i - m[x].n];
    m[x] = r; break;
  case 14: { if (!m[y].n) return false; int i = vp_int(1, m[y].n), j = vp_int(1, m[y].n);
    v[x] = subset(v[y], coca(i, j, i)); r.n = 3; r.d[0] = r.d[2] = m[y].d[i - 1]; r.d[1] = m[y].d[j - 1]; m[x] = r; break; }
  case 15: { if (!m[y].n || 2 * m[y].n > PCAP) return false; Vec<T> z = rep(v[y], 2); v[x] = z; r.n = 2 * m[y].n; for (int i = 0; i < r.n; i++) r.d[i] = m[y].d[i % m[y].n]; m[x] = r; break; }
  case 16: if (!m[y].n) return false; v[x].d = v[y].d; r = m[y]; m[x] = r; break;
  case 17: if (x == y) return false; v[x].d.moveit(v[y].d); r = m[x]; m[x] = m[y]; m[y] = r; break;
  case 18: if (!m[x].n || !m[y].n) return false;
    if (m[x].n != m[y].n) { vp_check(vp_throws([&] { subset(v[x], colon(1, m[x].n)) = v[y]; }), "mem.subset_mismatch"); break; }
    subset(v[x], colon(m[x].n, 1)) = v[y]; r = m[y];
    for (int i = 0; i < r.n; i++) m[x].d[r.n - 1 - i] = r.d[i];
    break;
  case 19: if (!m[x].n || !m[y].n) return false; // error in the middle of an evaluation
    vp_check(vp_throws([&] { v[x] = subset(v[y], m[y].n + 1); }), "mem.error"); break;
  case 20: { if (!m[y].n) return false; Vec<T> a[3]; a[0] = v[y]; a[1] = a[0]; a[2] = a[1]; a[0] = a[2]; v[x] = a[2]; r = m[y]; m[x] = r; break; } // scope with several vectors
  case 21: { if (!m[y].n) return false; auto *q = new Vec<T>(v[y]); v[x] = *q; delete q; r = m[y]; m[x] = r; break; }
  case 22: { if (!m[y].n) return false; Buffer<T> b(v[y].d); v[x].d = b; r = m[y]; m[x] = r; Buffer<T> c(std::move(b)); vp_eqi((long)c.size(), m[y].n, "mem.store_move"); vp_eqi((long)b.size(), 0, "mem.store_moved_from"); break; }
  case 23: { if (!m[y].n) return false; T s = any<T>(); Vec<T> e; e.d.push_back(s); for (int i = 0; i < 9; i++) e.d.push_back(v[y][i % m[y].n]);
    v[x] = e; r.n = 10; r.d[0] = s; for (int i = 0; i < 9; i++) r.d[i + 1] = m[y].d[i % m[y].n]; m[x] = r; break; }
  case 24: { if (!m[y].n) return false; sexp g; g = v[y] * 2.0; v[x] = g < v[y]; for (int i = 0; i < m[y].n; i++) r.d[i] = (double)m[y].d[i] * 2.0 < (double)m[y].d[i]; r.n = m[y].n; m[x] = r; break; }
  case 25: { int k = PSZ[vp_pick(vp_int(0, 2))]; if (m[x].n) { v[x].resize(k); for (int i = 0; i < k; i++) { T s = any<T>(); v[x][i] = s; m[x].d[i] = s; } } else { v[x].resize(k); for (int i = 0; i < k; i++) m[x].d[i] = T(); } m[x].n = k; break; }
  default: return false;
  }
  return true;
}
template <typename T> void phist(int lo, int hi) {
  long live = vp_heap_live();
  {
    W<T> w;
    static const int A[] = {0, 7, 2, 1}, B[] = {3, 7, 4, 14};
    #ifdef VP_THOROUGH
    int s = vp_pick(vp_int(0, 3));
#else
    int s = std::is_same_v<T, double> ? vp_pick(vp_int(0, 3)) : vp_pick(vp_int(0, 1));
#endif
    w.set(0, A[s]); w.set(1, B[s]);
    for (int k = 0; k < DEPTH; k++) {
      int op = vp_pick(k ? vp_int(0, POPS - 1) : vp_int(lo, hi));
      int x = vp_pick(vp_int(0, 1)), y = vp_pick(vp_int(0, 1));
      if (!pstep(w, op, x, y)) break;
      w.check();
    }
  }
  vp_eqi(vp_heap_live() - live, 0, "mem.leak");
}
