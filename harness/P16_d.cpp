#include "P16.inc"
static double any() { return vp_double(); }
VP_HARNESS(fraction) { // fractional dimensions are truncated
  double a = vp_frac(-5, 3), b = vp_frac(-5, 3); int r = (int)a, c = (int)b; if (!vp_pick(r < 1)) vp_pick(r); if (!vp_pick(c < 1)) vp_pick(c); r = (int)a; c = (int)b; double x = any();
  Vec<double> m; bool t = vp_throws([&] { m = matrix(double(x), double(a), double(b)); }); vp_eqi(t, (r < 1) | (c < 1), "matrixf.error"); if (t) return; expectM(m, r, c, [&](int) { return x; }, "matrixf.elem");
}
VP_HARNESS(invalid) { // any dimension that is not at least one
  double a = any(); vp_assume(!(a >= 1.0)); int k = vp_int(IMIN, 0); double x = any(); sexp m; vp_check(vp_throws([&] { m = matrix(double(x), double(a), 2); }), "matrixi.rows"); vp_check(vp_throws([&] { m = matrix(double(x), 2, double(a)); }), "matrixi.cols");
  vp_check(vp_throws([&] { m = matrix(double(x), int(k), 2); }), "matrixi.rows"); vp_check(vp_throws([&] { m = matrix(double(x), 1, int(k)); }), "matrixi.cols"); vp_check(vp_throws([&] { m = matrix(coca(x, x), int(k), int(k)); }), "matrixi.both"); }
VP_HARNESS(vecdims) { // dimensions as one element vectors
  int r = vp_pick(vp_int(-1, 3)), c = vp_pick(vp_int(-1, 2)); double x = any(), y = any(); Vec<int> R, C; R = coca(r); C = coca(c); bool bad = (r < 1) | (c < 1); Vec<double> m; int n = r * c; sexp v; v = rep(x, 6); if (!bad) { v = rep(x, n); v[n - 1] = y; }
  auto at = [&](int i) { return i == n - 1 ? y : x; };
  bool t = vp_throws([&] { m = matrix(std::move(v), std::move(R), std::move(C)); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, at, "matrixv.elem");
  t = vp_throws([&] { m = matrix(std::move(v), coca(r), int(c)); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, at, "matrixv.elem");
  t = vp_throws([&] { m = matrix(std::move(v), int(r), coca(double(c))); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, at, "matrixv.elem");
  t = vp_throws([&] { m = matrix(double(x), coca(r), coca(c)); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, [&](int) { return x; }, "matrixv.scalar");
  t = vp_throws([&] { m = matrix(double(x), int(r), std::move(C)); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, [&](int) { return x; }, "matrixv.scalar");
  t = vp_throws([&] { m = matrix(double(x), std::move(R), int(c)); }); vp_eqi(t, bad, "matrixv.error"); if (!t) expectM(m, r, c, [&](int) { return x; }, "matrixv.scalar");
}
VP_HARNESS(reshape) { // a matrix as data
  double d[6]; sexp m; m = matrix(vector_numeric(6), 2, 3); for (int i = 0; i < 6; i++) { d[i] = any(); m[i] = d[i]; }
  int r = vp_pick(vp_int(1, 6)), c = vp_pick(vp_int(1, 6)); sexp q; bool t = vp_throws([&] { q = matrix(std::move(m), int(r), int(c)); }); vp_eqi(t, r * c != 6, "matrixr.error"); if (!t) expectM(q, r, c, [&](int i) { return d[i]; }, "matrixr.elem");
  expectM(m, 2, 3, [&](int i) { return d[i]; }, "matrixr.arg");
}
// of dimensions given as vectors of several elements, or as expressions, the first element counts
template <bool SC> static void manyDims() {
  int r = vp_pick(vp_int(-1, 3)), c = vp_pick(vp_int(-1, 2)), o = vp_int(-5, 5), z = 0, n = r * c; bool bad = (r < 1) | (c < 1); double x = any(), y = any(), dz = 0;
  sexp v; v = coca(x); if (!bad) { v = rep(x, n); v[n - 1] = y; }
  auto at = [&](int i) { return !SC && i == n - 1 ? y : x; };
  Vec<double> m; bool t = false;
#define CASE(k, RD, CD) case k: t = vp_throws([&] { if constexpr (SC) m = matrix(double(x), RD, CD); else m = matrix(std::move(v), RD, CD); }); break;
  switch (vp_pick(vp_int(0, 9))) {
    CASE(0, coca(r, o), int(c)) CASE(1, int(r), coca(c, o)) CASE(2, coca(r, o), coca(c, o, o)) CASE(3, coca(r + 0.5 * (r > 0), (double)o), coca(c))
    CASE(4, coca(r, o, o), double(c)) CASE(5, double(r), coca((double)c, dz)) CASE(6, coca(r, o) + z, int(c)) CASE(7, int(r), coca(c, o) + z) CASE(8, coca(r) + dz, coca(c, o) + dz) CASE(9, coca(r, o), coca((double)c, dz))
  }
  vp_eqi(t, bad, "matrixd.error"); if (!t) expectM(m, r, c, at, "matrixd.elem");
}
VP_HARNESS(dims_vector) { manyDims<false>(); }
VP_HARNESS(dims_scalar) { manyDims<true>(); }
