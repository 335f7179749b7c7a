// BOUND: copies of the store: borrowed memory of 1..4 elements, shortened to any length, as vector or matrix, then copied, moved, assigned over another one or wrapped in a variable
#include "operands.h"
using BS = etr::Borrow<double>;
using BV = Vec<double, Borrow<double>>;
constexpr int N = 4;
struct M { double mem[N + 2], d[N + 2]; int n, sz, nr = 0, nc = 0; bool mat = false;
  void make(int n_) { n = n_; for (int i = 0; i < N + 2; i++) mem[i] = d[i] = vp_double(); }
  void guard() { for (int i = 0; i < N + 2; i++) vp_eq(mem[i], d[i], "borrow.memory"); } };
template <typename S> void same(S &s, const M &m, int sz) {
  vp_eqi((long)s.size(), sz, "borrow.size"); vp_eqi(s.im(), m.mat, "borrow.matrix"); if (m.mat) { vp_eqi((long)s.nr(), m.nr, "borrow.nrow"); vp_eqi((long)s.nc(), m.nc, "borrow.ncol"); }
  const S &c = s; for (int i = 0; i < sz; i++) vp_eq(c[i], m.d[i], "borrow.elem"); int k = vp_int(-2, 9); bool in = (k >= 0) & (k < sz); vp_eqi(vp_throws([&] { vp_obs(c[k]); }), !in, "borrow.bounds"); }
// afterwards: both sides refer to the same memory, which can be used again up to its full length but no further
template <typename S> void use(S &s, M &m, int sz) { same(s, m, sz); double t = vp_double(); int i = vp_int(0, sz - 1); s[i] = t; m.d[i] = t; m.guard(); double u = vp_double(); int j = vp_int(0, sz - 1); m.mem[j] = u; m.d[j] = u; same(s, m, sz);
  int k = vp_pick(vp_int(1, N + 2)); vp_eqi(vp_throws([&] { s.resize(k); }), k > m.n, "borrow.capacity"); sz = k > m.n ? sz : k; vp_eqi((long)s.size(), sz, "borrow.size"); m.mat = false; s.setMatrix(false, 0, 0); same(s, m, sz); m.guard(); }
static void setup(M &m, BS &x) { int k = vp_pick(vp_int(1, m.n)); if (vp_pick(vp_int(0, 1))) x.resize(k); else k = m.n; m.sz = k; if (k % 2 == 0 && vp_pick(vp_int(0, 1))) { m.mat = true; m.nr = 2; m.nc = k / 2; x.setMatrix(true, m.nr, m.nc); } }
VP_HARNESS(store_copy) { M m; m.make(vp_pick(vp_int(1, N))); BS x(m.mem, (std::size_t)m.n); setup(m, x); BS y(x); same(x, m, m.sz); use(y, m, m.sz); }
VP_HARNESS(store_move) { M m; m.make(vp_pick(vp_int(1, N))); BS x(m.mem, (std::size_t)m.n); setup(m, x); BS y(std::move(x)); use(y, m, m.sz); }
VP_HARNESS(store_assign) { M m, o; m.make(vp_pick(vp_int(1, N))); o.make(2); BS x(m.mem, (std::size_t)m.n), y(o.mem, (std::size_t)2); if (vp_pick(vp_int(0, 1))) y.setMatrix(true, 1, 2); setup(m, x); y = x; same(x, m, m.sz); use(y, m, m.sz); o.guard(); }
VP_HARNESS(store_init) { M m, o; m.make(vp_pick(vp_int(1, N))); o.make(2); BS y; if (vp_pick(vp_int(0, 1))) y.init(o.mem, 2); y.init(m.mem, (std::size_t)m.n); use(y, m, m.n); o.guard(); }
VP_HARNESS(store_wrap) { M m; m.make(vp_pick(vp_int(1, N))); BS x(m.mem, (std::size_t)m.n); setup(m, x); BV b(x); vp_eqi((long)b.size(), m.sz, "borrow.size"); same(b.d, m, m.sz); double t = vp_double(); b = b + t; for (int i = 0; i < m.sz; i++) m.d[i] = m.d[i] + t; m.guard(); use(b.d, m, m.sz); }
