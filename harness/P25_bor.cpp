// BOUND: vectors borrowing an R object (WrapperSEXP): numeric vectors of length 1..3 and matrices up to 2x2, histories of up to 3 statements (element, subset and scalar assignments, assignments of shorter, equal and longer vectors and expressions, rebinding, growing, imports of other types), all values; derivative programs over two of them
// OUTSIDE: integer and logical R objects cannot be borrowed (BorrowSEXP is only instantiated for numeric ones)
#include "etr_r.h"
using namespace etr;
struct Obj { SEXP s; int n, r = 0, c = 0; double v[6];
  Obj(int sh) { if (sh >= 4) { r = 2; c = sh - 3; n = r * c; s = PROTECT(Rf_allocMatrix(REALSXP, r, c)); } else { n = sh; s = PROTECT(Rf_allocVector(REALSXP, n)); } for (int i = 0; i < n; i++) { v[i] = vp_double(); REAL(s)[i] = v[i]; } }
  ~Obj() { UNPROTECT(1); }
  void check(const char *id) const { vp_eqi(s->len, n, id); vp_eqi((long)s->type, REALSXP, id); vp_eqi(s->mat, r > 0, id); vp_eqi(s->prot, 1, id); for (int i = 0; i < n; i++) vp_eq(REAL(s)[i], v[i], id); } };
// the variable: what it holds, and the R object it is bound to, if any
struct W { WrapperSEXP w; int n = 0, r = 0, c = 0; double v[6]; Obj *o = nullptr; int cap = 0;
  void bind(Obj &q) { o = &q; n = cap = q.n; r = q.r; c = q.c; for (int i = 0; i < n; i++) v[i] = q.v[i]; }
  void put(int i, double x) { v[i] = x; if (o) o->v[i] = x; }
  // contents of a whole assignment
  void assign(int m, const double *x, int mr = 0, int mc = 0) { if (o && m > cap) o = nullptr; n = m; r = mr; c = mc; for (int i = 0; i < m; i++) put(i, x[i]); }
  void check() const { const WrapperSEXP &z = w; vp_eqi((long)z.size(), n, "borrow.length"); vp_eqi(z.im(), r > 0, "borrow.matrix"); if (r) { vp_eqi((long)z.nr(), r, "borrow.matrix"); vp_eqi((long)z.nc(), c, "borrow.matrix"); } for (int i = 0; i < n; i++) vp_eq(z[i], v[i], "borrow.value"); if (o) vp_check(z.d.p == REAL(o->s), "borrow.bound"); } };
static void step(W &w, Obj &a, Obj &b) {
  int op = vp_pick(vp_int(0, 10)); double x[6]; for (int i = 0; i < 5; i++) x[i] = vp_double();
  auto mk = [&](int m) { sexp e; e.d.resize(m); for (int i = 0; i < m; i++) e[i] = x[i]; return e; };
  if (op == 0) { if (w.n == 0) return; int i = vp_pick(vp_int(0, w.n - 1)); w.w[i] = x[0]; w.put(i, x[0]); }
  else if (op == 1) { if (w.n == 0) return; int i = vp_pick(vp_int(1, w.n)); subset(w.w, i) = x[0]; w.put(i - 1, x[0]); }
  else if (op == 2) { w.w = x[0]; w.assign(1, x); }
  else if (op == 3) { int m = vp_pick(vp_int(1, 5)); sexp e = mk(m); w.w = e; w.assign(m, x); }
  else if (op == 4) { if (w.n == 0) return; w.w = w.w + w.w; double y[6]; for (int i = 0; i < w.n; i++) y[i] = w.v[i] + w.v[i]; w.assign(w.n, y, w.r, w.c); }
  else if (op == 5) { int m = vp_pick(vp_int(4, 5)); sexp e = mk(m); w.w = -e; for (int i = 0; i < m; i++) x[i] = -x[i]; w.assign(m, x); }
  else if (op == 6) { w.w = b.s; w.bind(b); }
  else if (op == 7) { w.w = a.s; w.bind(a); }
  else if (op == 8) { SEXP t = PROTECT(Rf_allocVector(vp_pick(vp_int(0, 1)) ? INTSXP : LGLSXP, 2)); INTEGER(t)[0] = INTEGER(t)[1] = 1; vp_check(vp_throws([&] { w.w = t; }), "borrow.type"); UNPROTECT(1); }
  else if (op == 9) { WrapperSEXP q(b.s); w.w = q; double y[6]; for (int i = 0; i < b.n; i++) y[i] = b.v[i]; w.assign(b.n, y, b.r, b.c); }
  else { sexp e = mk(4); e.d.setMatrix(true, 2, 2); w.w = e; w.assign(4, x, 2, 2); }
}
static void run(int k, int lo) {
  vpr_collect(); long live = vp_heap_live();
  { Obj a(vp_pick(vp_int(lo, 5))), b(vp_pick(vp_int(0, 1)) ? 2 : 4);
    { W w; if (vp_pick(vp_int(0, 1))) { w.w = a.s; w.bind(a); } w.check(); for (int i = 0; i < k; i++) { step(w, a, b); w.check(); a.check("obj.value"); b.check("obj.value"); } 
      // copies own their elements
      if (w.n) { WrapperSEXP z(w.w); const WrapperSEXP &zc = z; vp_eqi((long)zc.size(), w.n, "borrow.copy"); for (int i = 0; i < w.n; i++) vp_eq(zc[i], w.v[i], "borrow.copy"); z[0] = 1.5; w.check(); sexp y; y = w.w; vp_eq(((const sexp &)y)[0], w.v[0], "borrow.copy"); y[0] = 2.5; w.check(); a.check("obj.value"); b.check("obj.value"); } }
    a.check("obj.after"); b.check("obj.after"); }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "borrow.heap"); vp_eqi(vpr_type_error | vpr_underflow, 0, "borrow.api"); }
VP_HARNESS(one) { run(1, 1); }
VP_HARNESS(two) { run(2, 2); }
#ifdef VP_THOROUGH
VP_HARNESS(three) { run(3, 3); }
#endif
VP_HARNESS(construct) { vpr_collect(); long live = vp_heap_live(); { Obj a(vp_pick(vp_int(1, 5))); { SEXP s = a.s; WrapperSEXP w(s); const WrapperSEXP &z = w; vp_eqi((long)z.size(), a.n, "borrow.length"); vp_eqi(z.im(), a.r > 0, "borrow.matrix"); for (int i = 0; i < a.n; i++) vp_eq(z[i], a.v[i], "borrow.value"); double x = vp_double(); w[0] = x; a.v[0] = x; SEXP e = cpp2R(w); vp_eqi(e->len, a.n, "export.length"); vp_eqi(e->mat, a.r > 0, "export.matrix"); for (int i = 0; i < a.n; i++) vp_eq(REAL(e)[i], a.v[i], "export.value"); vp_check(e != a.s, "export.new"); } a.check("obj.after");
    SEXP t = PROTECT(Rf_allocVector(INTSXP, 2)); vp_check(vp_throws([&] { WrapperSEXP w(t); }), "borrow.type"); UNPROTECT(1); } vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "borrow.heap"); }
// the store itself
VP_HARNESS(store) { vpr_collect(); long live = vp_heap_live(); { Obj a(vp_pick(vp_int(1, 3))); { SEXP s = a.s; BorrowSEXP<double> d(s); int n = a.n; double x = vp_double(); double v[9]; for (int i = 0; i < n; i++) v[i] = a.v[i];
      for (int k = 0; k < 2; k++) { int op = vp_pick(vp_int(0, 2)); if (op == 0) { d.push_back(x); v[n++] = x; } else if (op == 1) { int m = n + vp_pick(vp_int(1, 2)); d.realloc(m); for (int i = n; i < m; i++) v[i] = 0; n = m; } else { int m = vp_pick(vp_int(n, n + 1)); if (m > (int)d.capacity) for (int i = 0; i < m; i++) v[i] = 0; d.resize(m); for (int i = n; i < m; i++) { d[i] = x; v[i] = x; } n = m; }
        const auto &z = d; vp_eqi((long)z.size(), n, "store.length"); for (int i = 0; i < n; i++) vp_eq(z[i], v[i], "store.value"); } } a.check("obj.after"); } vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "borrow.heap"); }
