#include "P18.inc"
VP_HARNESS(scalar) { Tab p(vp_pick(vp_int(4, CN))); double t = vp_real(-1e6, 1e6), o = t; p.expect(cmr(t, p.T, p.Y), t, "cmr.double"); vp_eq(t, o, "cmr.point"); p.same(); }
VP_HARNESS(outside) { Tab p(vp_pick(vp_int(4, CN))); double t = vp_double(); vp_assume((t < p.tm[0]) | (t >= p.tm[p.n - 1])); double r = cmr(t, p.T, p.Y); if (t < p.tm[0]) vp_eq(r, p.y[0], "cmr.before"); else vp_close(r, p.y[p.n - 1], "cmr.after"); p.same(); }
VP_HARNESS(knots) { Tab p(vp_pick(vp_int(4, CN))); int k = vp_pick(vp_int(0, p.n - 1)); vp_close(cmr(p.tm[k], p.T, p.Y), p.y[k], "cmr.knot"); p.same(); }
VP_HARNESS(fixed_knots) { Tab p(vp_pick(vp_int(4, CN)), false); int k = vp_pick(vp_int(0, p.n - 1)); vp_close(cmr(p.tm[k], p.T, p.Y), p.y[k], "cmr.knotfixed"); p.same(); }
VP_HARNESS(fixed) { Tab p(vp_pick(vp_int(4, CN)), false); double t = vp_real(-5, 15); p.expect(cmr(t, p.T, p.Y), t, "cmr.fixed"); p.same(); }
VP_HARNESS(integer) { Tab p(4); int t = vp_int(-30000, 30000); p.expect(cmr(t, p.T, p.Y), t, "cmr.int"); vp_eqi(t, t, "cmr.pointint"); p.same(); }
VP_HARNESS(logical) { Tab p(4); bool t = vp_bool(); p.expect(cmr(t, p.T, p.Y), t, "cmr.lgl"); p.same(); }
VP_HARNESS(vector_points) {
  Tab p(4); int n = vp_pick(vp_int(1, 3)); sexp v; v = vector_numeric(n); double d[3]; for (int i = 0; i < n; i++) { d[i] = vp_real(-1e6, 1e6); v[i] = d[i]; }
  p.expect(cmr(v, p.T, p.Y), d[0], "cmr.vec"); p.expect(cmr(ro(v), ro(p.T), ro(p.Y)), d[0], "cmr.cvec"); p.same(); vp_eqi((long)v.size(), n, "cmr.pointsize"); for (int i = 0; i < n; i++) vp_eq(v[i], d[i], "cmr.points");
}
VP_HARNESS(expression_points) { Tab p(4, false); sexp v; v = vector_numeric(2); double a = vp_real(-1e5, 1e5), b = vp_real(-1e5, 1e5); v[0] = a; v[1] = b; p.expect(cmr(v + 2.0, p.T, p.Y), a + 2.0, "cmr.sum"); int two = 2; p.expect(cmr(subset(v, two), p.T, p.Y), b, "cmr.subset"); p.expect(cmr(coca(b, a), p.T, p.Y), b, "cmr.temporary"); p.same(); }
VP_HARNESS(element_points) { Tab p(4); sexp v; v = coca(1.0, 2.0); double b = vp_real(-1e5, 1e5); v[1] = b; p.expect(cmr(at(v, 2), p.T, p.Y), b, "cmr.at"); p.same(); }
VP_HARNESS(value_forms) {
  Tab p(4); double t = vp_real(-1e6, 1e6), x = vp_real(-1e3, 1e3); double z[4];
  for (int i = 0; i < 4; i++) z[i] = p.y[i] * x; vp_close(cmr(t, p.T, p.Y * x), spline(p.tm, z, 4, t), "cmr.valueexpr");
  p.same();
}
VP_HARNESS(value_subset) { Tab p(4); double t = vp_real(-1e6, 1e6); Vec<int> ix; ix = coca(4, 2, 3, 1); double z[4] = {p.y[3], p.y[1], p.y[2], p.y[0]}; vp_close(cmr(t, p.T, subset(p.Y, ix)), spline(p.tm, z, 4, t), "cmr.valuesubset"); p.same(); }
VP_HARNESS(value_temporary) { Tab p(4); double t = vp_real(-1e6, 1e6), x = vp_real(-1e3, 1e3); double z[4] = {x, p.y[1], p.y[0], x}; vp_close(cmr(t, coca(p.tm[0], p.tm[1], p.tm[2], p.tm[3]), coca(x, p.y[1], p.y[0], x)), spline(p.tm, z, 4, t), "cmr.temporary"); p.same(); }
VP_HARNESS(borrowed) { Tab p(4); double rt[4], ry[4]; for (int i = 0; i < 4; i++) { rt[i] = p.tm[i]; ry[i] = p.y[i]; } Vec<double, Borrow<double>> T(rt, (std::size_t)4), Y(ry, (std::size_t)4); double t = vp_real(-1e6, 1e6); p.expect(cmr(t, T, Y), t, "cmr.borrowed"); for (int i = 0; i < 4; i++) { vp_eq(rt[i], p.tm[i], "cmr.time"); vp_eq(ry[i], p.y[i], "cmr.value"); } }
VP_HARNESS(lengths) {
  int n = vp_pick(vp_int(1, 6)), m = vp_pick(vp_int(1, 6)); sexp T, Y; T = vector_numeric(n); Y = vector_numeric(m); double y[6]; for (int i = 0; i < n; i++) T[i] = i; for (int i = 0; i < m; i++) { y[i] = vp_double(); Y[i] = y[i]; }
  double t = vp_double(); if (n != m) { vp_check(vp_throws([&] { cmr(t, T, Y); }), "cmr.length"); vp_check(vp_throws([&] { cmr(Y, T, Y); }), "cmr.lengthvec"); } else if (n < 4) vp_check(vp_throws([&] { cmr(t, T, Y); }), "cmr.few");
  for (int i = 0; i < n; i++) vp_eq(T[i], i, "cmr.time"); for (int i = 0; i < m; i++) vp_eq(Y[i], y[i], "cmr.value");
}
// a table whose first time and last time add up to the time before the last: the wrapped neighbour then coincides with the point itself
VP_HARNESS(degenerate) { sexp T, Y; T = coca(-1.0, 0.0, 1.0, 2.0); Y = coca(4.0, 1.0, 3.0, 2.0); vp_close(cmr(1.0, T, Y), 3.0, "cmr.degenerate"); }
