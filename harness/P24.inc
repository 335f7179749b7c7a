// BOUND: states after any statement of 22 kinds (two statements when thorough; none / one when the target is not one of these) over two variables (vectors of length 1..3 and more, matrices) next to a matrix, an integer and a logical vector, a borrowed vector and an empty variable; 36 kinds of failing statements with every invalid index / count / shape within -4..n+4 (doubles: whole range), as right hand side, function argument, nested operand and index of the left hand side; assignment to every variable, to operands of the failing expression, to subsets and to the borrowed vector
// OUTSIDE: failures of memory allocation; failing statements which write through several matrix cells at once with some indices valid (R-like partial write is not claimed)
#include "hist.h"
struct Env {
  World<2> w;
  sexp M; double md[6];
  Vec<int> iv; int id[3];
  Vec<bool> lv; bool ld[2];
  sexp e;
  double mem[6], bd[6]; int brn = 4;
  Vec<double, Borrow<double>> br;
  Env() : iv(SI{3}), lv(SI{2}), br(mem + 1, (std::size_t)4) {
    M = matrix(vector_numeric(6), 2, 3);
    for (int i = 0; i < 6; i++) { md[i] = vp_double(); M[i] = md[i]; }
    for (int i = 0; i < 3; i++) { id[i] = vp_int(-30000, 30000); iv[i] = id[i]; }
    for (int i = 0; i < 2; i++) { ld[i] = vp_bool(); lv[i] = ld[i]; }
    for (int i = 0; i < 6; i++) { bd[i] = vp_double(); mem[i] = bd[i]; }
  }
  void check(const char *id_) const {
    w.check(id_);
    vp_eqi((long)M.size(), 6, id_); vp_eqi(M.im(), 1, id_); vp_eqi((long)M.nr(), 2, id_); vp_eqi((long)M.nc(), 3, id_);
    for (int i = 0; i < 6; i++) vp_eq(M[i], md[i], id_);
    vp_eqi((long)iv.size(), 3, id_); for (int i = 0; i < 3; i++) vp_eqi(iv[i], id[i], id_);
    vp_eqi((long)lv.size(), 2, id_); for (int i = 0; i < 2; i++) vp_eqi(lv[i], ld[i], id_);
    vp_eqi((long)e.size(), 0, id_); vp_eqi(e.im(), 0, id_);
    vp_eqi((long)br.size(), brn, id_); vp_eqi(br.im(), 0, id_); for (int i = 0; i < 6; i++) vp_eq(mem[i], bd[i], id_);
  }
};
static int badIdx(int n) { int i = vp_int(-4, n + 4); vp_assume((i < 1) | (i > n)); return i; }
constexpr int FAILS = 36;
// runs one failing statement with target t; returns false if it does not apply here
template <typename V> bool failing(int kind, V &t, Env &E, int x, int y) {
  auto &w = E.w; sexp &a = w.v[x]; sexp &b = w.v[y]; const int n = w.m[x].n, m = w.m[y].n;
  auto bad = [&](auto f) { vp_check(vp_throws(f), "error.raised"); return true; };
  switch (kind) {
  case 0: { int i = badIdx(n); return bad([&] { t = subset(a, i); }); }
  case 1: { Vec<int> q(SI{3}); int g = vp_int(1, n), h = vp_int(1, n), i = badIdx(n), p = vp_pick(vp_int(0, 2)); q[0] = p == 0 ? i : g; q[1] = p == 1 ? i : h; q[2] = p == 2 ? i : h; return bad([&] { t = subset(a, q); }); }
  case 2: { int i = badIdx(n); return bad([&] { t = at(a, i); }); }
  case 3: { int i = badIdx(n); return bad([&] { t = b + subset(a, i); }); }
  case 4: { int i = badIdx(n); return bad([&] { t = coca(b, subset(a, i), a); }); }
  case 5: { int i = badIdx(2), j = vp_int(1, 3); return bad([&] { t = subset(E.M, i, j); }); }
  case 6: { int i = vp_int(1, 2), j = badIdx(3); return bad([&] { t = a * at(E.M, i, j); }); }
  case 7: { Vec<int> q(SI{2}); int g = vp_int(1, 3), i = badIdx(3); q[0] = g; q[1] = i; return bad([&] { t = -a + subset(E.M, true, q); }); }
  case 8: { int k = vp_int(-4, 0); return bad([&] { t = rep(a, k); }); }
  case 9: { int k = vp_int(-4, 0); return bad([&] { t = vector_numeric(int(k)); }); }
  case 10: { int k = vp_int(-4, 0); return bad([&] { t = a + vector_logical(int(k)); }); }
  case 11: { int k = vp_int(-4, 0); return bad([&] { t = matrix(1.5, int(k), 2); }); }
  case 12: { int k = vp_pick(vp_int(1, 5)); if (2 * k == n) return false; return bad([&] { t = matrix(coca(a), int(k), 2); }); }
  case 13: if (w.m[x].mat) return false; return bad([&] { t = dim(a); });
  case 14: { if (w.m[x].mat) return false; int i = vp_int(-2, n + 2); return bad([&] { t = subset(a, i, 1); }); }
  case 15: { if (w.m[x].mat) return false; int i = vp_int(-2, n + 2); return bad([&] { t = at(a, 1, i); }); }
  case 16: if (!w.m[x].mat || (w.m[x].nr == 2 && w.m[x].nc == 3)) return false; return bad([&] { t = a * 2.0 - E.M; });
  case 17: if (n <= 6 || w.m[x].mat) return false; return bad([&] { t = E.M < a; });
  case 18: if (n == m) return false; return bad([&] { t = cmr(1.0, a, b); });
  case 19: if (n == m) return false; return bad([&] { t = li(coca(1.0), a, b); });
  case 20: return bad([&] { t = E.e; });
  case 21: return bad([&] { t = a + E.e; });
  case 22: return bad([&] { t = E.e * 2.0; });
  case 23: return bad([&] { t = -(E.e - b); });
  case 24: return bad([&] { t = rep(E.e, 2); });
  case 25: return bad([&] { t = subset(a, E.e); });
  case 26: return bad([&] { t = sinus(E.e < a); });
  case 27: { Vec<int> q(SI{1}); int i = badIdx(3); q[0] = i; return bad([&] { t = subset(E.iv, q) + subset(E.lv, true); }); }
  case 28: { int i = badIdx(2); return bad([&] { t = colon(1, 3) * subset(E.lv, i); }); }
  case 29: { int i = badIdx(E.brn); return bad([&] { t = a + subset(E.br, i); }); }
  default: return false;
  }
}
// failing statements whose left hand side is a subset or the borrowed vector
static bool failingLeft(int kind, Env &E, int x, int y) {
  auto &w = E.w; sexp &a = w.v[x]; sexp &b = w.v[y]; const int n = w.m[x].n, m = w.m[y].n;
  auto bad = [&](auto f) { vp_check(vp_throws(f), "error.raised"); return true; };
  switch (kind) {
  case 30: { if (n == m) return false; Vec<int> q(SI{n}); for (int i = 0; i < n; i++) { int j = vp_int(1, n); q[i] = j; } if (m == 1) return false; return bad([&] { subset(a, q) = b; }); }
  case 31: { int i = badIdx(n); double s = vp_double(); return bad([&] { subset(a, i) = s; }); }
  case 32: { int i = badIdx(n); double s = vp_double(); return bad([&] { at(a, i) = s; }); }
  case 33: { if (m <= 4) return false; return bad([&] { E.br = b; }); }
  case 34: { int i = badIdx(n); return bad([&] { subset(a, colon(1, 1)) = subset(a, i); }); }
  case 35: { int i = vp_pick(vp_int(0, 1)) ? -1 - vp_int(0, 3) : n + vp_int(0, 3); double s = vp_double(); return bad([&] { a[(std::size_t)i] = s; }); }
  // operations called directly
  case 36: { int k = vp_pick(vp_int(5, 9)); return bad([&] { E.br.resize(k); }); }
  case 37: return bad([&] { a.resize(0); });
  case 38: return bad([&] { E.br.resize(0); });
  case 39: { if (m == n) return false; return bad([&] { a.d.fill(b); }); }
  case 40: { if (m == 4) return false; return bad([&] { E.br.d.fill(b); }); }
  case 41: { std::size_t i = (std::size_t)vp_int(-2147483647 - 1, 2147483647); vp_assume(i >= (std::size_t)n); return bad([&] { double r = a.d[i]; vp_eq(r, r, "never"); }); }
  case 42: { std::size_t i = (std::size_t)vp_int(-2147483647 - 1, 2147483647); vp_assume(i >= 4); double s = vp_double(); return bad([&] { E.br[i] = s; }); }
  case 43: { std::size_t i = (std::size_t)vp_int(-2147483647 - 1, 2147483647); vp_assume(i >= 6); const sexp &q = E.M; return bad([&] { double r = q[i]; vp_eq(r, r, "never"); }); }
  case 44: { if (w.m[x].mat) return false; return bad([&] { matrix(coca(a, 1.0), 2, (int)(n + 1)); }); }
  case 45: { int i = badIdx(n); double s = vp_double(); return bad([&] { a(i) = s; }); }
  case 46: { int i = badIdx(2), j = vp_int(1, 3); double s = vp_double(); return bad([&] { E.M(i, j) = s; }); }
  case 47: { int i = vp_int(1, 2), j = badIdx(3); return bad([&] { b = E.M(i, j); }); }
  default: return false;
  }
}
#ifdef VP_THOROUGH
constexpr int STEPS = 2;
#else
constexpr int STEPS = 1;
#endif
static void run(int lo, int hi, int tlo, int thi) {
  long h0 = vp_heap_live();
  {
    Env E; auto &w = E.w;
    switch (vp_pick(vp_int(0, 2))) {
    case 0: w.fresh(0, 3); w.fresh(1, 2); break;
    case 1: w.freshMat(0, 2, 2); w.fresh(1, 3); break;
    case 2: w.fresh(0, 1); w.fresh(1, 8); break;
    }
    int kind = vp_pick(vp_int(lo, hi)); const int tk = kind < 30 ? vp_pick(vp_int(tlo, thi)) : 0;
    for (int k = 0; k < (tlo >= 2 ? STEPS - 1 : STEPS); k++) { int op = vp_pick(vp_int(0, NOPS - 1)), x = vp_pick(vp_int(0, 1)); int y = vp_pick(vp_int(0, 1)); if (!step(w, op, x, y)) return; }
    if (tk == 6 && vp_pick(vp_int(0, 1))) { E.br.resize(2); E.brn = 2; } // shorter than its memory
    int x = vp_pick(vp_int(0, 1)), y = 1 - x; bool done = false;
    if (kind >= 30) done = failingLeft(kind, E, x, y);
    else switch (tk) {
    case 0: done = failing(kind, w.v[0], E, x, y); break;
    case 1: done = failing(kind, w.v[1], E, x, y); break;
    case 2: done = failing(kind, E.M, E, x, y); break;
    case 3: done = failing(kind, E.iv, E, x, y); break;
    case 4: done = failing(kind, E.lv, E, x, y); break;
    case 5: done = failing(kind, E.e, E, x, y); break;
    case 6: done = failing(kind, E.br, E, x, y); break;
    }
    if (!done) return;
    E.check("after.error");
    // and everything can be used as before
    double s = vp_double();
    w.v[x] = w.v[y] + s; Mo r = w.m[y]; for (int i = 0; i < r.n; i++) r.d[i] += s; w.m[x] = r;
    E.M = E.M * 2.0; for (int i = 0; i < 6; i++) E.md[i] *= 2.0;
    E.iv = coca(7, 8, 9); E.id[0] = 7; E.id[1] = 8; E.id[2] = 9;
    E.br = coca(s, 1.0, 2.0, s); E.brn = 4; E.bd[1] = s; E.bd[2] = 1.0; E.bd[3] = 2.0; E.bd[4] = s;
    E.check("use.after.error");
    E.e = w.v[x]; for (int i = 0; i < w.m[x].n; i++) vp_eq(E.e[i], w.m[x].d[i], "use.after.error");
  }
  vp_eqi(vp_heap_live() - h0, 0, "no.leak");
}
