// The memory behind a vector (Buffer): histories of its own operations, then growth element by element
// BOUND: the store itself: histories of 2 (thorough 3) of 12 operations (copy, move, assign, exchange, resize, realloc, grow, init, fill, shrink) on two stores of lengths 0..14, then five elements appended to each
#include "operands.h"
constexpr int SCAP = 96;
template <typename T> struct SM { int n = 0; T d[SCAP]; };
template <typename T> T anyv() { if constexpr (std::is_same_v<T, double>) return vp_double(); else if constexpr (std::is_same_v<T, int>) return vp_int(-1000, 1000); else return vp_bool(); }
template <typename T> struct SW {
  etr::Buffer<T> *b[2]; SM<T> m[2];
  SW() { for (int k = 0; k < 2; k++) b[k] = nullptr; }
  ~SW() { for (int k = 0; k < 2; k++) delete b[k]; }
  void wr(int x) { for (int i = 0; i < m[x].n; i++) { m[x].d[i] = anyv<T>(); (*b[x])[i] = m[x].d[i]; } }
  void check() { for (int k = 0; k < 2; k++) { vp_eqi((long)b[k]->size(), m[k].n, "mem.size"); vp_check(b[k]->capacity >= b[k]->size(), "mem.capacity"); const auto &c = *b[k]; for (int i = 0; i < m[k].n; i++) vp_eq((double)c[i], (double)m[k].d[i], "mem.elem"); } }
  void push(int x, int c) { for (int i = 0; i < c; i++) { T s = anyv<T>(); b[x]->push_back(s); m[x].d[m[x].n++] = s; } }
};
static const int SN[] = {1, 2, 7, 14};
constexpr int SOPS = 12;
template <typename T> void sstep(SW<T> &w, int op, int x) {
  int y = 1 - x; auto *&b = w.b[x]; auto *&o = w.b[y]; auto &m = w.m;
  switch (op) {
  case 0: { etr::Buffer<T> *n = new etr::Buffer<T>(*o); delete b; b = n; m[x] = m[y]; w.wr(y); break; }
  case 1: { etr::Buffer<T> *n = new etr::Buffer<T>(std::move(*o)); delete b; b = n; m[x] = m[y]; m[y].n = 0; break; }
  case 2: *b = *o; m[x] = m[y]; w.wr(x); break;
  case 3: { b->moveit(*o); SM<T> r = m[x]; m[x] = m[y]; m[y] = r; break; }
  case 4: { int k = SN[vp_pick(vp_int(0, 3))]; int old = m[x].n; b->resize(k); for (int i = 0; i < k; i++) { if (i < old) continue; T s = anyv<T>(); (*b)[i] = s; } m[x].n = k; w.wr(x); break; }
  case 5: { int k = SN[vp_pick(vp_int(0, 3))]; b->realloc(k); for (int i = m[x].n; i < k; i++) m[x].d[i] = T(); m[x].n = k; break; }
  case 6: w.push(x, vp_pick(vp_int(1, 4))); break;
  case 7: { int k = SN[vp_pick(vp_int(0, 3))]; b->init(k); m[x].n = k; w.wr(x); break; }
  case 8: { T s = anyv<T>(); b->fill(s); for (int i = 0; i < m[x].n; i++) m[x].d[i] = s; break; }
  case 9: if (m[x].n) { b->resize(1); m[x].n = 1; } break; // shrinks in place
  case 10: if (m[x].n == m[y].n) { b->fill(*o); m[x] = m[y]; w.wr(y); } else vp_check(vp_throws([&] { b->fill(*o); }), "mem.fill_mismatch"); break;
  case 11: { etr::Vec<T> v(*o), u; if (!m[y].n) break; u = v; *b = u.d; m[x] = m[y]; break; }
  }
}
template <typename T> void shist(int steps, int lo, int hi) {
  long live = vp_heap_live();
  { SW<T> w; int s = vp_pick(vp_int(0, 3));
    for (int k = 0; k < 2; k++) { int n = k ? SN[s] : SN[3 - s]; if (k == 0 && s == 3) { w.b[k] = new etr::Buffer<T>(); continue; } w.b[k] = new etr::Buffer<T>(std::size_t(n)); w.m[k].n = n; w.wr(k); }
    for (int k = 0; k < steps; k++) { int op = vp_pick(k ? vp_int(0, SOPS - 1) : vp_int(lo, hi)); int x = vp_pick(vp_int(0, 1)); sstep(w, op, x); w.check(); }
    for (int k = 0; k < 2; k++) w.push(k, 5);
    w.check();
  }
  vp_eqi(vp_heap_live() - live, 0, "mem.leak");
}
VP_HARNESS(store_0) { shist<double>(2, 0, 1); }
VP_HARNESS(store_2) { shist<double>(2, 2, 3); }
VP_HARNESS(store_4) { shist<double>(2, 4, 5); }
VP_HARNESS(store_6) { shist<double>(2, 6, 8); }
VP_HARNESS(store_9) { shist<double>(2, 9, 11); }
VP_HARNESS(store_bool) { shist<bool>(1, 0, SOPS - 1); }
#ifdef VP_THOROUGH
VP_HARNESS(store_bool2) { shist<bool>(2, 0, SOPS - 1); }
VP_HARNESS(store3_0) { shist<double>(3, 0, 2); }
VP_HARNESS(store3_3) { shist<double>(3, 3, 5); }
VP_HARNESS(store3_6) { shist<double>(3, 6, 8); }
VP_HARNESS(store3_9) { shist<double>(3, 9, 11); }
#endif
