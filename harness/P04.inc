#include "operands.h"
// a matrix with known content
struct M {
  sexp v; int r, c, n; double d[NMAX * NMAX];
  M(int r_, int c_) : r(r_), c(c_), n(r_ * c_) {
    v = matrix(vector_numeric(n), int(r), int(c));
    for (int i = 0; i < n; i++) { d[i] = vp_double(); v[i] = d[i]; }
  }
};
template <typename Q> void shp(const Q &q, long r, long c, const char *im, const char *nr, const char *nc, const char *sz) {
  vp_check(q.im(), im); vp_eqi((long)q.nr(), r, nr); vp_eqi((long)q.nc(), c, nc); vp_eqi((long)q.size(), r * c, sz);
}
template <typename Q> void pln(const Q &q, long n, const char *im, const char *sz) { vp_check(!q.im(), im); vp_eqi((long)q.size(), n, sz); }
#define SHAPE(x, R, C, id) shp(x, R, C, id ".im", id ".nrow", id ".ncol", id ".size")
#define PLAIN(x, N, id) pln(x, N, id ".plain", id ".size")
// all forms of an operation with at least one matrix operand, and without
template <typename OP> void bin(OP op) {
  int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX)), n = r * c;
  M a(r, c), b(r, c);
  int k = vp_pick(vp_int(1, NMAX));
  sexp w = vector_numeric(k); double wd[NMAX];
  for (int i = 0; i < k; i++) { wd[i] = vp_double(); w[i] = wd[i]; }
  Vec<int> wi(SI{1}); int iv = vp_int(-100, 100); wi[0] = iv;
  double s = vp_double(); int is = vp_int(-100, 100);
  sexp res;
  auto mm = [&](const auto &e, const char *, auto want) {
    SHAPE(e, r, c, "expr");
    res = e;
    SHAPE(res, r, c, "result");
    for (int i = 0; i < n; i++) vp_eq(res[i], want(i), "elem");
  };
  auto f = [&](double x, double y) { return (double)op(x, y); };
  switch (vp_pick(vp_int(0, 14))) {
  case 0: mm(op(a.v, b.v), "", [&](int i) { return f(a.d[i], b.d[i]); }); break;
  case 1: mm(op(a.v, s), "", [&](int i) { return f(a.d[i], s); }); break;
  case 2: mm(op(s, a.v), "", [&](int i) { return f(s, a.d[i]); }); break;
  case 3: mm(op(a.v, is), "", [&](int i) { return f(a.d[i], is); }); break;
  case 4: mm(op(is, a.v), "", [&](int i) { return f(is, a.d[i]); }); break;
  case 5: if (k <= n) mm(op(a.v, w), "", [&](int i) { return f(a.d[i], wd[i % k]); }); break;
  case 6: if (k <= n) mm(op(w, a.v), "", [&](int i) { return f(wd[i % k], a.d[i]); }); break;
  case 7: mm(op(a.v, wi), "", [&](int i) { return f(a.d[i], iv); }); break;
  case 8: { // expression operands
    auto e1 = [&](int i) { return f(a.d[i] + b.d[i], -a.d[i]); };
    SHAPE(op(a.v + b.v, -a.v), r, c, "nested.expr");
    res = op(a.v + b.v, -a.v);
    SHAPE(res, r, c, "nested");
    for (int i = 0; i < n; i++) vp_eq(res[i], e1(i), "nested.elem");
    res = op(2.0 * a.v, s - b.v);
    SHAPE(res, r, c, "nested2");
    for (int i = 0; i < n; i++) vp_eq(res[i], f(2.0 * a.d[i], s - b.d[i]), "nested2.elem");
    res = op(w + s, w);
    PLAIN(res, k, "nested3");
    break; }
  case 9: PLAIN(op(w, w), k, "vecvec.expr"); res = a.v; res = op(w, w); PLAIN(res, k, "vecvec"); break;
  case 10: PLAIN(op(w, s), k, "vecscalar.expr"); res = a.v; res = op(w, s); PLAIN(res, k, "vecscalar"); PLAIN(op(s, w), k, "scalarvec.expr"); res = op(s, w); PLAIN(res, k, "scalarvec"); break;
  case 13: { // shapes that do not fit
    int r2 = vp_pick(vp_int(1, NMAX)), c2 = vp_pick(vp_int(1, NMAX)); if (r2 == r && c2 == c) break;
    M o(r2, c2); res = w;
    vp_check(vp_throws([&] { res = op(a.v, o.v); }), "otherShape.throws"); PLAIN(res, k, "otherShape.target");
    vp_check(vp_throws([&] { a.v = op(o.v + s, -a.v); }), "otherShape.nested"); SHAPE(a.v, r, c, "otherShape.same"); SHAPE(o.v, r2, c2, "otherShape.same");
    for (int i = 0; i < n; i++) vp_eq(a.v[i], a.d[i], "otherShape.elem"); for (int i = 0; i < k; i++) vp_eq(res[i], wd[i], "otherShape.elem"); break; }
  case 14: // a vector longer than the matrix
    if (k > n) { vp_check(vp_throws([&] { res = op(a.v, w); }), "longer.throws"); vp_check(vp_throws([&] { a.v = op(w, a.v); }), "longer.throws2"); SHAPE(a.v, r, c, "longer.same"); for (int i = 0; i < n; i++) vp_eq(a.v[i], a.d[i], "longer.elem"); } break;
  case 11: { // matrix valued temporaries and subsets
    SHAPE(op(subset(a.v, true, colon(1, c)), s), r, c, "subset.expr");
    res = op(subset(a.v, true, colon(1, c)), subset(b.v, colon(1, r), true));
    SHAPE(res, r, c, "subset");
    for (int i = 0; i < n; i++) vp_eq(res[i], f(a.d[i], b.d[i]), "subset.elem");
    Vec<int> one(SI{1}); int j = vp_int(1, c); one[0] = j;
    res = op(subset(a.v, true, one), s);
    SHAPE(res, r, 1, "subset_col");
    for (int i = 0; i < r; i++) vp_eq(res[i], f(a.d[(j - 1) * r + i], s), "subset_col.elem");
    break; }
  case 12: { // matrix of integers and logicals
    Vec<int> mi; Vec<bool> mb;
    mi = op(a.v, b.v) > 0.5; SHAPE(mi, r, c, "int_target");
    if (k <= n) { mb = op(a.v, w) < s; SHAPE(mb, r, c, "logical_target"); }
    SHAPE(op(mi, s), r, c, "int_matrix.expr");
    res = op(mi, s); SHAPE(res, r, c, "int_matrix");
    for (int i = 0; i < n; i++) vp_eq(res[i], f(f(a.d[i], b.d[i]) > 0.5 ? 1 : 0, s), "int_matrix.elem");
    mi = w > 0.0; PLAIN(mi, k, "int_reset");
    break; }
  }
  SHAPE(a.v, r, c, "operand"); SHAPE(b.v, r, c, "operand2");
  for (int i = 0; i < n; i++) { vp_eq(a.v[i], a.d[i], "operand.elem"); vp_eq(b.v[i], b.d[i], "operand2.elem"); }
  PLAIN(w, k, "operand3");
}
