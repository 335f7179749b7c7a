// BOUND: chains of assignments with lengths 1..40 around the reserve of the buffer, all element types, self overlapping expressions
#include "operands.h"
constexpr int LM = 40;
// target of length n is overwritten by an expression of itself and of a vector of length m
VP_HARNESS(self_lengths) {
  static const int L[] = {1, 2, 3, 6, 7, 8, 13, 14, 20, 40};
  int n = L[vp_pick(vp_int(0, 9))], m = L[vp_pick(vp_int(0, 9))];
  sexp a = vector_numeric(n), b = vector_numeric(m); double da[LM], db[LM];
  for (int i = 0; i < n; i++) { da[i] = vp_double(); a[i] = da[i]; }
  for (int i = 0; i < m; i++) { db[i] = vp_double(); b[i] = db[i]; }
  int k = n > m ? n : m;
  a = a * 2.0 + b;
  vp_eqi((long)a.size(), k, "self.size");
  for (int i = 0; i < k; i++) vp_eq(a[i], da[i % n] * 2.0 + db[i % m], "self.elem");
  b = b;
  vp_eqi((long)b.size(), m, "self.source_size");
  for (int i = 0; i < m; i++) vp_eq(b[i], db[i], "self.source");
  a = b; b = 1.0; b = a - b; a = -a;
  vp_eqi((long)a.size(), m, "self.copied_size"); vp_eqi((long)b.size(), m, "self.source_size2");
  for (int i = 0; i < m; i++) { vp_eq(a[i], -db[i], "self.copied"); vp_eq(b[i], db[i] - 1.0, "self.source2"); }
}
// shrink, grow and shrink again: no element of an earlier state shows up
VP_HARNESS(grow_shrink) {
  static const int L[] = {1, 2, 7, 8, 14, 30};
  sexp a; sexp src[4]; double d[4][30]; int n[4];
  for (int k = 0; k < 3; k++) {
    n[k] = L[vp_pick(vp_int(0, 5))];
    src[k] = vector_numeric(n[k]);
    for (int i = 0; i < n[k]; i++) { d[k][i] = vp_double(); src[k][i] = d[k][i]; }
    a = src[k];
    vp_eqi((long)a.size(), n[k], "grow.size");
    for (int i = 0; i < n[k]; i++) vp_eq(a[i], d[k][i], "grow.elem");
  }
  a = a + src[0];
  int m = n[2] > n[0] ? n[2] : n[0];
  vp_eqi((long)a.size(), m, "grow.sum_size");
  for (int i = 0; i < m; i++) vp_eq(a[i], d[2][i % n[2]] + d[0][i % n[0]], "grow.sum");
  for (int k = 0; k < 3; k++) { vp_eqi((long)src[k].size(), n[k], "grow.source_size"); for (int i = 0; i < n[k]; i++) vp_eq(src[k][i], d[k][i], "grow.source"); }
}
// overlapping subsets, functions of the target
VP_HARNESS(overlap) {
  int n = vp_pick(vp_int(1, 5));
  sexp a = vector_numeric(n); double d[5];
  for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; }
  int lo = vp_pick(vp_int(1, n)), hi = vp_pick(vp_int(1, n));
  double s = vp_double();
  switch (vp_pick(vp_int(0, 8))) {
  case 0: a = subset(a, colon(lo, hi)); { int k = lo < hi ? hi - lo + 1 : lo - hi + 1; vp_eqi((long)a.size(), k, "overlap.size"); for (int i = 0; i < k; i++) vp_eq(a[i], d[lo <= hi ? lo - 1 + i : lo - 1 - i], "overlap.subset"); } break;
  case 1: a = subset(a, colon(n, 1)) + a; vp_eqi((long)a.size(), n, "overlap.rev_size"); for (int i = 0; i < n; i++) vp_eq(a[i], d[n - 1 - i] + d[i], "overlap.rev"); break;
  case 2: a = coca(a, a, s); vp_eqi((long)a.size(), 2 * n + 1, "overlap.coca_size"); for (int i = 0; i < 2 * n; i++) vp_eq(a[i], d[i % n], "overlap.coca"); vp_eq(a[2 * n], s, "overlap.coca_last"); break;
  case 3: a = rep(a, 3); vp_eqi((long)a.size(), 3 * n, "overlap.rep_size"); for (int i = 0; i < 3 * n; i++) vp_eq(a[i], d[i % n], "overlap.rep"); break;
  case 4: a = a(lo); vp_eqi((long)a.size(), 1, "overlap.one_size"); vp_eq(a[0], d[lo - 1], "overlap.one"); break;
  case 5: a = a == a(hi); for (int i = 0; i < n; i++) vp_eq(a[i], (double)((d[i] == d[hi - 1]) | (std::fabs(d[i] - d[hi - 1]) < 1E-3)), "overlap.cmp"); break;
  case 6: a(colon(1, n)) = subset(a, colon(n, 1)); vp_eqi((long)a.size(), n, "overlap.write_size"); for (int i = 0; i < n; i++) vp_eq(a[i], d[n - 1 - i], "overlap.write"); break;
  case 7: a(colon(1, n)) = a + a(lo); for (int i = 0; i < n; i++) vp_eq(a[i], d[i] + d[lo - 1], "overlap.write_expr"); break;
  case 8: { sexp b; b = a; a = b = a - s; vp_eqi((long)b.size(), n, "overlap.chain_size"); for (int i = 0; i < n; i++) { vp_eq(a[i], d[i] - s, "overlap.chain"); vp_eq(b[i], d[i] - s, "overlap.chain2"); } } break;
  }
}
// conversions between the element types: each element converted like a C++ conversion
VP_HARNESS(types) {
  int n = vp_pick(vp_int(1, NMAX));
  sexp a = vector_numeric(n); Vec<int> ai(SI{n}); Vec<bool> ab(SI{n});
  double d[NMAX]; int iv[NMAX]; bool bv[NMAX];
  for (int i = 0; i < n; i++) { d[i] = vp_real(-1e9, 1e9); a[i] = d[i]; iv[i] = vp_int(-2000000000, 2000000000); ai[i] = iv[i]; bv[i] = vp_bool(); ab[i] = bv[i]; }
  double s = vp_real(-1e9, 1e9); int is = vp_int(-1000000, 1000000);
  Vec<int> ti(SI{2}); Vec<bool> tb(SI{5}); sexp td;
  ti = a; vp_eqi((long)ti.size(), n, "types.int_size"); for (int i = 0; i < n; i++) vp_eqi(ti[i], (int)d[i], "types.int_from_num");
  td = ai; vp_eqi((long)td.size(), n, "types.num_size"); for (int i = 0; i < n; i++) vp_eq(td[i], (double)iv[i], "types.num_from_int");
  td = ab; for (int i = 0; i < n; i++) vp_eq(td[i], (double)bv[i], "types.num_from_lgl");
  tb = a; vp_eqi((long)tb.size(), n, "types.lgl_size"); for (int i = 0; i < n; i++) vp_eqi(tb[i], d[i] != 0.0, "types.lgl_from_num");
  tb = ai; for (int i = 0; i < n; i++) vp_eqi(tb[i], iv[i] != 0, "types.lgl_from_int");
  ti = ab; for (int i = 0; i < n; i++) vp_eqi(ti[i], bv[i], "types.int_from_lgl");
  ti = a * 0.5; for (int i = 0; i < n; i++) vp_eqi(ti[i], (int)(d[i] * 0.5), "types.int_from_expr");
  tb = a > s; for (int i = 0; i < n; i++) vp_eqi(tb[i], d[i] > s, "types.lgl_from_cmp");
  ti = a > s; for (int i = 0; i < n; i++) vp_eqi(ti[i], d[i] > s, "types.int_from_cmp");
  td = s; vp_eq(td[0], s, "types.num_scalar"); vp_eqi((long)td.size(), 1, "types.num_scalar_size");
  td = is; vp_eq(td[0], (double)is, "types.num_int_scalar");
  ti = s; vp_eqi(ti[0], (int)s, "types.int_scalar"); vp_eqi((long)ti.size(), 1, "types.int_scalar_size");
  ti = is; vp_eqi(ti[0], is, "types.int_int_scalar");
  tb = s; vp_eqi(tb[0], s != 0.0, "types.lgl_scalar"); tb = is; vp_eqi(tb[0], is != 0, "types.lgl_int_scalar");
  td = true; vp_eq(td[0], 1.0, "types.num_lgl_scalar");
  ti = coca(s, is); vp_eqi((long)ti.size(), 2, "types.int_temp_size"); vp_eqi(ti[0], (int)s, "types.int_temp"); vp_eqi(ti[1], is, "types.int_temp2");
  td = coca(is, 1); vp_eq(td[0], (double)is, "types.num_temp"); tb = coca(0, is); vp_eqi(tb[0], 0, "types.lgl_temp"); vp_eqi(tb[1], is != 0, "types.lgl_temp2");
  ti = subset(a, 1); vp_eqi(ti[0], (int)d[0], "types.int_subset"); td = subset(ab, 1); vp_eq(td[0], (double)bv[0], "types.num_subset");
  subset(ai, 1) = s; vp_eqi(ai[0], (int)s, "types.write_subset"); subset(ai, colon(1, n)) = a; for (int i = 0; i < n; i++) vp_eqi(ai[i], (int)d[i], "types.write_subset_vec");
  subset(ab, colon(1, n)) = a; for (int i = 0; i < n; i++) vp_eqi(ab[i], d[i] != 0.0, "types.write_subset_lgl");
  Vec<int> ci = colon(1, 2); sexp cd = colon(1, 2); Vec<int> cc = coca(s, s); vp_eqi(ci[1], 2, "types.ctor_int"); vp_eq(cd[1], 2.0, "types.ctor_num"); vp_eqi(cc[1], (int)s, "types.ctor_conv");
  for (int i = 0; i < n; i++) vp_eq(a[i], d[i], "types.source");
}
// independence: writing one of source and target never shows in the other
VP_HARNESS(independent) {
  int n = vp_pick(vp_int(1, NMAX));
  sexp a = vector_numeric(n); double d[NMAX];
  for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; }
  double s = vp_double();
  sexp b; b = a; sexp c(a); sexp e = a; sexp t = rep(a, 1); sexp u; u = t; sexp m; { sexp tmp = a; m = tmp; }
  int i = vp_int(0, n - 1);
  switch (vp_pick(vp_int(0, 7))) {
  case 0: a[i] = s; break;
  case 1: a = s; break;
  case 2: a.fill(s); break;
  case 3: subset(a, i + 1) = s; break;
  case 4: at(a, i + 1) = s; break;
  case 5: for (auto &x : a) x = s; break;
  case 6: a = a + s; break;
  case 7: { sexp z(std::move(a)); z[i] = s; break; }
  }
  t.fill(s);
  for (const sexp *p : {&b, &c, &e, &u, &m}) { vp_eqi((long)p->size(), n, "independent.size"); for (int k = 0; k < n; k++) vp_eq((*p)[k], d[k], "independent.elem"); }
  b[i] = s; for (int k = 0; k < n; k++) vp_eq(c[k], d[k], "independent.copy");
}
