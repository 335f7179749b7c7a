// BOUND: R objects of type numeric, integer and logical, vectors of length 0..3 and matrices up to 2x3, all values; variables that were empty or held 1..4 elements before; two imports in a row; exports of variables, temporaries, subsets and expressions
// OUTSIDE: R objects that are shared between variables of R; missing values of logical objects (a bool cannot hold them); other types of R objects; arrays of more than two dimensions
// ASSUME: R objects behave as modelled in harness/RcppArmadillo.h: one block per object, anything not protected may vanish at the next allocation
#include "etr_r.h"
using namespace etr;
template <typename T> constexpr SEXPTYPE rtype() { return std::is_same_v<T, double> ? REALSXP : std::is_same_v<T, int> ? INTSXP : LGLSXP; }
struct Obj {
  SEXP s; SEXPTYPE t; int n, r, c; bool mat; double v[6];
  void set(int i, double x) { if (t == REALSXP) REAL(s)[i] = x; else if (t == INTSXP) INTEGER(s)[i] = (int)x; else LOGICAL(s)[i] = x != 0; }
  double get(int i) const { return t == REALSXP ? REAL(s)[i] : t == INTSXP ? (double)INTEGER(s)[i] : (double)LOGICAL(s)[i]; }
  Obj(SEXPTYPE ty, int shape, bool empty = true) : t(ty) {
    mat = shape >= 4; r = c = 0;
    if (mat) { r = 1 + (shape - 4) % 2; c = 1 + (shape - 4) / 2; n = r * c; s = PROTECT(Rf_allocMatrix(t, r, c)); }
    else { n = shape; s = PROTECT(Rf_allocVector(t, n)); }
    for (int i = 0; i < n; i++) { if (t == REALSXP) v[i] = vp_double(); else if (t == INTSXP) v[i] = vp_int(-2147483647, 2147483647); else v[i] = vp_bool(); set(i, v[i]); }
  }
  ~Obj() { UNPROTECT(1); }
  void same(const char *id = "obj.unchanged") const { vp_eqi(s->len, n, id); vp_eqi(s->mat, mat, id); vp_eqi(s->prot, 1, "obj.protect"); if (mat) { vp_eqi(s->nr, r, id); vp_eqi(s->nc, c, id); } for (int i = 0; i < n; i++) vp_eq(get(i), v[i], id); }
};
// 0..3 vectors, 4..9 matrices
static int shape(int lo = 0, int hi = 9) { return vp_pick(vp_int(lo, hi)); }
template <typename T, typename V> void holds(const V &x, const Obj &o, const char *id) {
  vp_eqi((long)x.size(), o.n, id); vp_eqi(x.im(), o.mat, id); if (o.mat) { vp_eqi((long)x.nr(), o.r, id); vp_eqi((long)x.nc(), o.c, id); }
  for (int i = 0; i < o.n; i++) vp_eq((double)x[i], o.v[i], id); }
template <typename T> T any() { if constexpr (std::is_same_v<T, double>) return vp_double(); else if constexpr (std::is_same_v<T, int>) return vp_int(-2147483647, 2147483647); else return vp_bool(); }
template <typename T> struct Old { int n; bool mat; T v[4]; Vec<T> x;
  Old(int k) { mat = k == 5; n = mat ? 4 : k; if (n == 0) return; if (mat) x.d.resize(4); else x.d.resize(n); for (int i = 0; i < n; i++) { v[i] = any<T>(); x[i] = v[i]; } if (mat) x.d.setMatrix(true, 2, 2); }
  void same() const { const auto &y = x; vp_eqi((long)y.size(), n, "import.kept"); vp_eqi(y.im(), mat, "import.kept"); for (int i = 0; i < n; i++) vp_eq((double)y[i], (double)v[i], "import.kept"); } };
template <typename T> void imp() {
  vpr_collect(); long live = vp_heap_live(); int depth = vpr_depth;
  { Old<T> y(vp_pick(vp_int(0, 5))); SEXPTYPE t = (SEXPTYPE)(vp_pick(vp_int(0, 2)) == 0 ? REALSXP : vp_pick(vp_int(0, 1)) ? INTSXP : LGLSXP);
    Obj o(t, shape()); bool thrown = vp_throws([&] { y.x = o.s; });
    vp_eqi(thrown, t != rtype<T>(), "import.type"); o.same();
    if (thrown) y.same(); else { const Vec<T> &z = y.x; holds<T>(z, o, "import.value"); if (o.n) { y.x[0] = any<T>(); o.same("obj.copied"); } } }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "import.heap"); vp_eqi(vpr_depth, depth, "import.depth"); vp_eqi(vpr_underflow | vpr_type_error, 0, "import.api"); }
VP_HARNESS(import_double) { imp<double>(); }
VP_HARNESS(import_int) { imp<int>(); }
VP_HARNESS(import_bool) { imp<bool>(); }
// two imports in a row, the variable used between them and after
template <typename T> void twice() {
  vpr_collect(); long live = vp_heap_live();
  { Vec<T> x; Obj o(rtype<T>(), shape()); x = o.s; Obj q(rtype<T>(), shape()); x = q.s; const Vec<T> &z = x; holds<T>(z, q, "import.again"); o.same(); q.same();
    if (q.n == 0) return;
    Vec<T> k; k = x; x = k; holds<T>((const Vec<T> &)k, q, "import.copy"); holds<T>(z, q, "import.copy"); }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "import.heap"); }
VP_HARNESS(twice_double) { twice<double>(); }
VP_HARNESS(twice_int) { twice<int>(); }
VP_HARNESS(twice_bool) { twice<bool>(); }
// exports
struct Out { SEXP s; Out(SEXP s_) : s(s_) {} };
template <typename T, typename F> void exported(SEXP s, int n, int r, int c, int depth, F want) {
  vp_eqi(vpr_depth, depth, "export.depth"); vp_eqi(vpr_underflow | vpr_type_error, 0, "export.api"); vp_eqi((long)s->type, (long)rtype<T>(), "export.type"); vp_eqi(s->len, n, "export.length"); vp_eqi(s->mat, r > 0, "export.matrix"); vp_eqi(s->prot, 0, "export.protect");
  if (r) { vp_eqi(s->nr, r, "export.rows"); vp_eqi(s->nc, c, "export.cols"); }
  for (int i = 0; i < n; i++) vp_eq(s->type == REALSXP ? REAL(s)[i] : (double)INTEGER(s)[i], (double)want(i), "export.value"); }
template <typename T> struct Src { int n, r = 0, c = 0; T v[6]; Vec<T> x;
  Src(int sh) { if (sh >= 4) { r = 1 + (sh - 4) % 2; c = 1 + (sh - 4) / 2; n = r * c; } else n = sh; x.d.resize(n); for (int i = 0; i < n; i++) { v[i] = any<T>(); x[i] = v[i]; } if (r) x.d.setMatrix(true, r, c); }
  void same() const { const auto &y = x; vp_eqi((long)y.size(), n, "export.kept"); vp_eqi(y.im(), r > 0, "export.kept"); for (int i = 0; i < n; i++) vp_eq((double)y[i], (double)v[i], "export.kept"); } };
template <typename T> void expo() {
  vpr_collect(); long live = vp_heap_live(); int depth = vpr_depth;
  { Src<T> a(shape(1)); SEXP s = cpp2R(a.x); exported<T>(s, a.n, a.r, a.c, depth, [&](int i) { return a.v[i]; }); a.same(); 
    // back again
    PROTECT(s); Vec<T> b; b = s; UNPROTECT(1); const Vec<T> &z = b; vp_eqi((long)z.size(), a.n, "roundtrip"); vp_eqi(z.im(), a.r > 0, "roundtrip"); if (a.r) { vp_eqi((long)z.nr(), a.r, "roundtrip"); vp_eqi((long)z.nc(), a.c, "roundtrip"); } for (int i = 0; i < a.n; i++) vp_eq((double)z[i], (double)a.v[i], "roundtrip"); }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "export.heap"); }
VP_HARNESS(export_double) { expo<double>(); }
VP_HARNESS(export_int) { expo<int>(); }
VP_HARNESS(export_bool) { expo<bool>(); }
VP_HARNESS(export_temporary) { vpr_collect(); long live = vp_heap_live(); int depth = vpr_depth;
  { Src<double> a(shape(1)); SEXP s = cpp2R(a.x + a.x); exported<double>(s, a.n, a.r, a.c, depth, [&](int i) { return a.v[i] + a.v[i]; }); s = cpp2R(-a.x); exported<double>(s, a.n, a.r, a.c, depth, [&](int i) { return -a.v[i]; }); 
    s = cpp2R(coca(a.v[0], 2.0, a.v[0])); double w[3] = {a.v[0], 2, a.v[0]}; exported<double>(s, 3, 0, 0, depth, [&](int i) { return w[i]; }); a.same(); }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "export.heap"); }
VP_HARNESS(export_compare) { int depth = vpr_depth; Src<double> a(shape(1)); double t = vp_double(); SEXP s = cpp2R(a.x < t); exported<bool>(s, a.n, a.r, a.c, depth, [&](int i) { return a.v[i] < t; }); a.same(); }
VP_HARNESS(export_borrow) { int depth = vpr_depth; int n = vp_pick(vp_int(1, 3)); double m[3], v[3]; for (int i = 0; i < 3; i++) m[i] = v[i] = vp_double(); BorrowPtr b(m, (std::size_t)n); SEXP s = cpp2R(b); exported<double>(s, n, 0, 0, depth, [&](int i) { return v[i]; }); for (int i = 0; i < 3; i++) vp_eq(m[i], v[i], "export.kept"); }
VP_HARNESS(export_subset) { int depth = vpr_depth; Src<double> a(vp_pick(vp_int(2, 3))); int k = vp_int(1, a.n), l = vp_int(1, a.n); Vec<int> ix; ix.d.resize(2); ix[0] = k; ix[1] = l; SEXP s = cpp2R(subset(a.x, ix)); exported<double>(s, 2, 0, 0, depth, [&](int i) { return a.v[(i ? l : k) - 1]; }); a.same(); }
VP_HARNESS(export_scalars) { int depth = vpr_depth; double d = vp_double(); int i = vp_int(-2147483647, 2147483647); bool b = vp_bool();
  SEXP s = cpp2R(d); exported<double>(s, 1, 0, 0, depth, [&](int) { return d; }); s = cpp2R(i); exported<int>(s, 1, 0, 0, depth, [&](int) { return i; }); s = cpp2R(b); exported<bool>(s, 1, 0, 0, depth, [&](int) { return b; });
  vp_check(cpp2R() == R_NilValue, "export.null"); std::string t = "ab c"; s = cpp2R(t); vp_eqi((long)s->type, STRSXP, "export.string"); vp_check(std::strcmp((const char *)vpr_data(s), "ab c") == 0, "export.string"); s = cpp2R("xy"); vp_check(std::strcmp((const char *)vpr_data(s), "xy") == 0, "export.string"); vp_eqi(vpr_depth, depth, "export.depth"); }
// Rcpp and Armadillo objects
template <typename RV, bool mat> void rcpp() {
  vpr_collect(); long live = vp_heap_live(); SEXP keep = nullptr;
  { Old<double> y(vp_pick(vp_int(0, 5))); int r = vp_pick(vp_int(1, 3)), c = mat ? vp_pick(vp_int(1, 2)) : 1, n = r * c; double v[6];
    RV o = [&] { if constexpr (mat) return RV(r, c); else return RV(r); }();
    if constexpr (std::is_same_v<RV, Rcpp::NumericVector> || std::is_same_v<RV, Rcpp::NumericMatrix>) keep = o;
    for (int i = 0; i < n; i++) { v[i] = vp_double(); o[i] = v[i]; }
    auto is = [&](const sexp &z, const char *id) { vp_eqi((long)z.size(), n, id); vp_eqi(z.im(), mat, id); if (mat) { vp_eqi((long)z.nr(), r, id); vp_eqi((long)z.nc(), c, id); } for (int i = 0; i < n; i++) vp_eq(z[i], v[i], id); };
    if (vp_pick(vp_int(0, 1))) { y.x = o; is(y.x, "rcpp.assign"); } else { sexp z(o); is(z, "rcpp.construct"); y.x = z; is(y.x, "rcpp.construct"); }
    y.x[0] = vp_double(); for (int i = 0; i < n; i++) vp_eq(o[i], v[i], "rcpp.copied"); y.x[0] = v[0];
    const sexp &z = y.x; RV b = z; vp_eqi((long)b.size(), n, "rcpp.length"); if constexpr (mat) { for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) vp_eq(b(i, j), v[j * r + i], "rcpp.element"); } for (int i = 0; i < n; i++) vp_eq(b[i], v[i], "rcpp.value"); is(z, "rcpp.kept"); b[0] = vp_double(); vp_eq(z[0], v[0], "rcpp.own");
    if constexpr (mat) { sexp w = coca(1.0, 2.0); vp_check(vp_throws([&] { RV q = (const sexp &)w; }), "rcpp.nomatrix"); }
    if constexpr (std::is_same_v<RV, Rcpp::NumericVector> || std::is_same_v<RV, Rcpp::NumericMatrix>) { for (int i = 0; i < vpr_count; i++) vpr_heap[i]->pinned = false; } }
  vpr_collect(); vp_eqi(vp_heap_live() - live, 0, "rcpp.heap"); vp_eqi(vpr_type_error, 0, "rcpp.api"); }
VP_HARNESS(rcpp_vector) { rcpp<Rcpp::NumericVector, false>(); }
VP_HARNESS(rcpp_matrix) { rcpp<Rcpp::NumericMatrix, true>(); }
VP_HARNESS(arma_vector) { rcpp<arma::vec, false>(); }
VP_HARNESS(arma_matrix) { rcpp<arma::mat, true>(); }
