#include "operands.h"
using BV = Vec<double, Borrow<double>>;
// borrowed matrices: shape, element order, writing through subsets, assignment of matrices
VP_HARNESS(bmat) {
  int r = vp_pick(vp_int(1, 3)), c = vp_pick(vp_int(1, 3)), n = r * c;
  double mem[11], d[9];
  for (int i = 0; i < 11; i++) mem[i] = 77.0;
  for (int i = 0; i < n; i++) mem[1 + i] = d[i] = vp_double();
  BV b(mem + 1, (std::size_t)r, (std::size_t)c);
  vp_check(b.im(), "bmat.im"); vp_eqi((long)b.nr(), r, "bmat.nrow"); vp_eqi((long)b.nc(), c, "bmat.ncol"); vp_eqi((long)b.size(), n, "bmat.size");
  int i = vp_int(1, r), j = vp_int(1, c);
  double s = vp_double();
  vp_eq(at(b, i, j), d[(j - 1) * r + i - 1], "bmat.at");
  switch (vp_pick(vp_int(0, 7))) {
  case 0: at(b, i, j) = s; d[(j - 1) * r + i - 1] = s; break;
  case 1: subset(b, i, j) = s; d[(j - 1) * r + i - 1] = s; break;
  case 2: { sexp col; col = subset(b, true, j); vp_eqi((long)col.size(), r, "bmat.col_size"); for (int k = 0; k < r; k++) vp_eq(col[k], d[(j - 1) * r + k], "bmat.col"); break; }
  case 3: b = b * s; vp_check(b.im(), "bmat.scaled_im"); for (int k = 0; k < n; k++) d[k] *= s; break;
  case 4: { sexp m = matrix(vector_numeric(n), int(r), int(c)); for (int k = 0; k < n; k++) { double x = vp_double(); m[k] = x; d[k] = x; } b = m; vp_check(b.im(), "bmat.assigned_im"); vp_eqi((long)b.nr(), r, "bmat.assigned_nrow"); break; }
  case 5: { sexp m; m = b + b; vp_check(m.im(), "bmat.copy_im"); vp_eqi((long)m.nr(), r, "bmat.copy_nrow"); vp_eqi((long)m.nc(), c, "bmat.copy_ncol"); for (int k = 0; k < n; k++) vp_eq(m[k], d[k] + d[k], "bmat.copy"); m.fill(0); break; }
  case 6: { sexp m = matrix(vector_numeric(n), int(c), int(r)); for (int k = 0; k < n; k++) { double x = vp_double(); m[k] = x; d[k] = x; } b = m; vp_eqi((long)b.nr(), c, "bmat.transposed_nrow"); vp_eqi((long)b.nc(), r, "bmat.transposed_ncol"); break; }
  case 7: { vp_check(vp_throws([&] { b = matrix(vector_numeric(n + r), int(r), int(c + 1)); }), "bmat.too_large"); vp_check(b.im(), "bmat.kept"); vp_eqi((long)b.nr(), r, "bmat.kept_nrow"); vp_eqi((long)b.nc(), c, "bmat.kept_ncol"); break; }
  }
  for (int k = 0; k < n; k++) { vp_eq(mem[1 + k], d[k], "bmat.memory"); vp_eq(b[k], d[k], "bmat.elem"); }
  vp_eq(mem[0], 77.0, "bmat.guard"); for (int k = n + 1; k < 11; k++) vp_eq(mem[k], 77.0, "bmat.guard2");
}
// copies of the borrowing vector share the memory; pieces of one block do not interfere
VP_HARNESS(shared) {
  double mem[8], d[8];
  for (int i = 0; i < 8; i++) mem[i] = d[i] = vp_double();
  int k = vp_pick(vp_int(1, 7));
  BV a(mem, (std::size_t)k), b(mem + k, (std::size_t)(8 - k));
  double s = vp_double();
  switch (vp_pick(vp_int(0, 5))) {
  case 0: a.fill(s); for (int i = 0; i < k; i++) d[i] = s; break;
  case 1: b = b + s; for (int i = k; i < 8; i++) d[i] += s; break;
  case 2: { BV c(a); int i = vp_int(0, k - 1); c[i] = s; d[i] = s; break; }
  case 3: { bool fits = 8 - k <= k && 8 - k >= k; vp_eqi(vp_throws([&] { a = b; }), !fits, "shared.fits"); if (fits) for (int i = 0; i < k; i++) d[i] = d[k + i]; break; }
  case 4: { sexp r; r = a + b; int m = k > 8 - k ? k : 8 - k; vp_eqi((long)r.size(), m, "shared.sum_size"); for (int i = 0; i < m; i++) vp_eq(r[i], d[i % k] + d[k + i % (8 - k)], "shared.sum"); break; }
  case 5: { int i = vp_int(1, k); b = at(a, i); d[k] = d[i - 1]; vp_eqi((long)b.size(), 1, "shared.scalar"); break; }
  }
  for (int i = 0; i < 8; i++) vp_eq(mem[i], d[i], "shared.memory");
}
