// BOUND: every way to copy or move (constructor, assignment, by value, return, chain) for double, integer and logical matrices of 1x1 .. 3x3 (5x5); histories of 2 (thorough 3) operations from 22 over matrices and vectors, 3 initial states
#include "P04.inc"
template <typename V> static V pass(V x) { return x; }
template <typename V> static V twice(const V &x) { V y(x); return y; }
template <typename V> void copies(V &x, int r, int c) {
  { V y(x); SHAPE(y, r, c, "copy_ctor"); for (int i = 0; i < r * c; i++) vp_eq(y[i], x[i], "copy_ctor.elem"); }
  { V y; y = x; SHAPE(y, r, c, "copy_assign"); for (int i = 0; i < r * c; i++) vp_eq(y[i], x[i], "copy_assign.elem"); }
  { V y = x; V z(std::move(y)); SHAPE(z, r, c, "move_ctor"); for (int i = 0; i < r * c; i++) vp_eq(z[i], x[i], "move_ctor.elem"); }
  { V y = x; V z; z = std::move(y); SHAPE(z, r, c, "move_assign"); for (int i = 0; i < r * c; i++) vp_eq(z[i], x[i], "move_assign.elem"); }
  { V z = pass(x); SHAPE(z, r, c, "by_value"); V w = twice(x); SHAPE(w, r, c, "returned"); for (int i = 0; i < r * c; i++) { vp_eq(z[i], x[i], "by_value.elem"); vp_eq(w[i], x[i], "returned.elem"); } }
  { V y, z; y = z = x; SHAPE(y, r, c, "chain"); SHAPE(z, r, c, "chain2"); y = pass(z); SHAPE(y, r, c, "chain3"); }
  { auto y = x; SHAPE(y, r, c, "auto"); y[0] = 1; SHAPE(y, r, c, "write"); y.fill(0); SHAPE(y, r, c, "fill"); y = y; SHAPE(y, r, c, "self"); }
  { V y; y = x; y = 1.0; PLAIN(y, 1, "scalar"); y = x; SHAPE(y, r, c, "again"); y = 1; PLAIN(y, 1, "int"); y = x; y = true; PLAIN(y, 1, "bool"); }
  { V y; y = x; V z(SI{2}); y = z; PLAIN(y, 2, "vector"); y = x; y = coca(1, 2, 3); PLAIN(y, 3, "coca"); y = x; y = colon(1, 2); PLAIN(y, 2, "colon"); y = x; y = rep(x, 2); PLAIN(y, 2 * r * c, "rep"); }
  { V y; y = x; y = subset(x, 1); PLAIN(y, 1, "subset"); y = x; y = vector_numeric(2); PLAIN(y, 2, "vector_numeric"); y = x; y = V(SI{1}); PLAIN(y, 1, "sized"); y = x; V e(7.0); y = e; PLAIN(y, 1, "converted"); }
  { double s = vp_double(); sexp g; g = x; SHAPE(g, r, c, "to_numeric"); Vec<int> gi; gi = x > s; SHAPE(gi, r, c, "to_int"); Vec<bool> gb; gb = x > s; SHAPE(gb, r, c, "to_logical"); g = gb; SHAPE(g, r, c, "back"); g = gi; SHAPE(g, r, c, "back_int"); }
}
VP_HARNESS(copy_num) { int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX)); M a(r, c); copies(a.v, r, c); }
VP_HARNESS(copy_int) { int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX)); Vec<int> v(r, c); for (int i = 0; i < r * c; i++) v[i] = vp_int(-9, 9); copies(v, r, c); }
VP_HARNESS(copy_lgl) { int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX)); Vec<bool> v(r, c); for (int i = 0; i < r * c; i++) v[i] = vp_bool(); copies(v, r, c); }
// constructed from a number of rows and columns, from memory, from a temporary
VP_HARNESS(ctor) {
  int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX));
  double s = vp_double(), raw[NMAX * NMAX];
  for (int i = 0; i < r * c; i++) raw[i] = vp_double();
  sexp a(r, c), b(r, c, s), m(raw, r, c), v(raw, (std::size_t)(r * c));
  SHAPE(a, r, c, "ctor"); SHAPE(b, r, c, "ctor_value"); SHAPE(m, r, c, "ctor_memory"); PLAIN(v, r * c, "ctor_vector");
  for (int i = 0; i < r * c; i++) { vp_eq(a[i], 0.0, "ctor.zero"); vp_eq(b[i], s, "ctor.value"); vp_eq(m[i], raw[i], "ctor.memory"); vp_eq(v[i], raw[i], "ctor.vector"); }
  sexp t = matrix(double(s), int(r), int(c)); SHAPE(t, r, c, "from_matrix");
  sexp u = matrix(vector_numeric(r * c), int(r), int(c)); SHAPE(u, r, c, "from_matrix2");
  for (int i = 0; i < r * c; i++) { vp_eq(t[i], s, "from_matrix.elem"); vp_eq(u[i], 0.0, "from_matrix2.elem"); }
  sexp w = coca(s, s); PLAIN(w, 2, "from_coca");
  Vec<int> wi = colon(1, 2); PLAIN(wi, 2, "from_colon");
  // column by column storage, seen by the accessors
  for (int i = 1; i <= r; i++) for (int j = 1; j <= c; j++) {
    vp_eq(at(m, i, j), raw[(j - 1) * r + i - 1], "storage.at");
    sexp one; one = subset(m, i, j); vp_eq(one[0], raw[(j - 1) * r + i - 1], "storage.subset");
  }
}
// an expression held in a variable of deduced type reports the shape as well; unary functions on nested expressions
VP_HARNESS(expr_shape) {
  int r = vp_pick(vp_int(1, NMAX)), c = vp_pick(vp_int(1, NMAX));
  M a(r, c); sexp s1 = 2.0;
  SHAPE(-(a.v + 1.0), r, c, "neg"); SHAPE(sinus(-a.v), r, c, "sinus"); SHAPE(etr::exp(a.v * s1) / 2.0 + sqroot(a.v), r, c, "mix");
  SHAPE((a.v + s1) * (s1 - a.v), r, c, "mix2"); SHAPE(1.0 - (2.0 / (a.v ^ 2.0)), r, c, "mix3"); SHAPE(-(-a.v) == a.v, r, c, "mix4");
  sexp t; t = s1; t = cosinus((s1 + a.v) * -a.v); SHAPE(t, r, c, "target");
  t = cosinus(s1 + s1); PLAIN(t, 1, "plain"); PLAIN(-(s1 + s1) * s1, 1, "plain_expr");
  t = subset(a.v + 1.0, colon(1, 1)); PLAIN(t, 1, "sub_expr");
  t = a.v; t = t + 1.0; SHAPE(t, r, c, "self"); t = t * t - s1; SHAPE(t, r, c, "self2"); t = ln(t); SHAPE(t, r, c, "self3"); t = t > 1.0; SHAPE(t, r, c, "self4");
}
