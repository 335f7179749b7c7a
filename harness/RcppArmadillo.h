// A model of the part of the R API (and of Rcpp, Armadillo and the R math library)
// that ETR uses when it is compiled for R.  An R object is one block of memory, header
// and elements together, so that its elements can never be released by delete[].
// Everything allocated and not protected is collected at the next allocation.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <iostream>
#include <vector>
#include <mutex>
#include <functional>
#include <limits>
#include <stdexcept>
#include <algorithm>
typedef enum { FALSE = 0, TRUE } Rboolean;
typedef ptrdiff_t R_xlen_t;
typedef unsigned int SEXPTYPE;
constexpr SEXPTYPE NILSXP = 0, LGLSXP = 10, INTSXP = 13, REALSXP = 14, STRSXP = 16;
constexpr int VPR_MAX = 16;
struct SEXPREC {
  SEXPTYPE type; int nr, nc; bool mat, pinned; int prot; long len;
  double dummy; // elements follow
};
typedef SEXPREC *SEXP;
inline SEXPREC vpr_nil{NILSXP, 0, 0, false, true, 0, 0, 0};
inline SEXP R_NilValue = &vpr_nil;
inline double R_NaN = std::numeric_limits<double>::quiet_NaN(), R_NaReal = std::numeric_limits<double>::quiet_NaN(), R_PosInf = std::numeric_limits<double>::infinity(), R_NegInf = -std::numeric_limits<double>::infinity();
inline int R_NaInt = -2147483647 - 1;
#define NA_REAL R_NaReal
#define NA_INTEGER R_NaInt
#define NA_LOGICAL R_NaInt
inline SEXP vpr_heap[VPR_MAX]; inline int vpr_count = 0; inline SEXP vpr_stack[VPR_MAX]; inline int vpr_depth = 0;
// bookkeeping a harness looks at
inline int vpr_underflow = 0, vpr_type_error = 0;
inline void vpr_collect() { int k = 0; for (int i = 0; i < vpr_count; i++) { if (vpr_heap[i]->prot == 0 && !vpr_heap[i]->pinned) ::operator delete((void *)vpr_heap[i]); else vpr_heap[k++] = vpr_heap[i]; } vpr_count = k; }
inline SEXP vpr_new(SEXPTYPE t, long n, bool mat, int nr, int nc) {
  vpr_collect();
  SEXP s = (SEXP)::operator new(sizeof(SEXPREC) + (std::size_t)n * (t == REALSXP ? sizeof(double) : t == STRSXP ? 1 : sizeof(int)));
  s->type = t; s->len = n; s->mat = mat; s->nr = nr; s->nc = nc; s->pinned = false; s->prot = 0; s->dummy = 0;
  vpr_heap[vpr_count++] = s; return s;
}
inline void *vpr_data(SEXP s) { return (void *)(s + 1); }
inline SEXP Rf_allocVector(SEXPTYPE t, R_xlen_t n) { return vpr_new(t, n, false, 0, 0); }
inline SEXP Rf_allocMatrix(SEXPTYPE t, int r, int c) { return vpr_new(t, (long)r * c, true, r, c); }
inline double *REAL(SEXP s) { if (s->type != REALSXP) { vpr_type_error++; throw std::runtime_error("REAL() applied to another type"); } return (double *)vpr_data(s); }
inline int *INTEGER(SEXP s) { if (s->type != INTSXP && s->type != LGLSXP) { vpr_type_error++; throw std::runtime_error("INTEGER() applied to another type"); } return (int *)vpr_data(s); }
inline int *LOGICAL(SEXP s) { if (s->type != LGLSXP && s->type != INTSXP) { vpr_type_error++; throw std::runtime_error("LOGICAL() applied to another type"); } return (int *)vpr_data(s); }
inline const double *REAL_RO(SEXP s) { return REAL(s); }
inline const int *INTEGER_RO(SEXP s) { return INTEGER(s); }
inline const int *LOGICAL_RO(SEXP s) { return LOGICAL(s); }
inline double REAL_ELT(SEXP s, R_xlen_t i) { return REAL(s)[i]; }
inline int INTEGER_ELT(SEXP s, R_xlen_t i) { return INTEGER(s)[i]; }
inline int LOGICAL_ELT(SEXP s, R_xlen_t i) { return LOGICAL(s)[i]; }
inline void SET_REAL_ELT(SEXP s, R_xlen_t i, double v) { REAL(s)[i] = v; }
inline void SET_INTEGER_ELT(SEXP s, R_xlen_t i, int v) { INTEGER(s)[i] = v; }
inline void SET_LOGICAL_ELT(SEXP s, R_xlen_t i, int v) { LOGICAL(s)[i] = v; }
inline SEXP Rf_ScalarReal(double v) { SEXP s = Rf_allocVector(REALSXP, 1); REAL(s)[0] = v; return s; }
inline SEXP Rf_ScalarInteger(int v) { SEXP s = Rf_allocVector(INTSXP, 1); INTEGER(s)[0] = v; return s; }
inline SEXP Rf_ScalarLogical(int v) { SEXP s = Rf_allocVector(LGLSXP, 1); LOGICAL(s)[0] = v == R_NaInt ? v : v != 0; return s; }
inline SEXP Rf_mkString(const char *c) { long n = (long)std::strlen(c) + 1; SEXP s = vpr_new(STRSXP, n, false, 0, 0); char *t = (char *)vpr_data(s); for (long i = 0; i < n; i++) t[i] = c[i]; return s; }
inline SEXP Rf_protect(SEXP s) { s->prot++; vpr_stack[vpr_depth++] = s; return s; }
inline void Rf_unprotect(int n) { for (int i = 0; i < n; i++) { if (vpr_depth == 0) { vpr_underflow++; return; } vpr_stack[--vpr_depth]->prot--; } }
#define PROTECT(x) Rf_protect(x)
#define UNPROTECT(n) Rf_unprotect(n)
inline void R_PreserveObject(SEXP s) { s->prot++; }
inline void R_ReleaseObject(SEXP s) { s->prot--; }
inline int TYPEOF(SEXP s) { return (int)s->type; }
inline Rboolean Rf_isReal(SEXP s) { return s->type == REALSXP ? TRUE : FALSE; }
inline Rboolean Rf_isInteger(SEXP s) { return s->type == INTSXP ? TRUE : FALSE; }
inline Rboolean Rf_isLogical(SEXP s) { return s->type == LGLSXP ? TRUE : FALSE; }
inline Rboolean Rf_isNumeric(SEXP s) { return s->type == REALSXP || s->type == INTSXP || s->type == LGLSXP ? TRUE : FALSE; }
inline Rboolean Rf_isNull(SEXP s) { return s->type == NILSXP ? TRUE : FALSE; }
inline Rboolean Rf_isVector(SEXP s) { return s->type != NILSXP ? TRUE : FALSE; }
inline Rboolean Rf_isMatrix(SEXP s) { return s->mat ? TRUE : FALSE; }
inline int Rf_length(SEXP s) { return (int)s->len; }
inline R_xlen_t Rf_xlength(SEXP s) { return s->len; }
inline int LENGTH(SEXP s) { return (int)s->len; }
inline R_xlen_t XLENGTH(SEXP s) { return s->len; }
inline int Rf_nrows(SEXP s) { return s->mat ? s->nr : (int)s->len; }
inline int Rf_ncols(SEXP s) { return s->mat ? s->nc : 1; }
inline int R_IsNaN(double d) { return d != d; }
inline int R_finite(double d) { return std::isfinite(d); }
[[noreturn]] inline void Rf_error(const char *s) { throw std::runtime_error(s); }
inline void Rf_warning(const char *) {}
inline void Rprintf(const char *) {}
namespace Rcpp {
[[noreturn]] inline void stop(const std::string &s) { throw std::runtime_error(s); }
inline void warning(const std::string &) {}
inline std::ostream &Rcout = std::cout;
// like in Rcpp, a copy refers to the same R object
struct NumericVector {
  SEXP s;
  NumericVector() : s(Rf_allocVector(REALSXP, 0)) { s->pinned = true; }
  template <typename I> requires std::is_integral_v<I> explicit NumericVector(I n) : s(Rf_allocVector(REALSXP, (long)n)) { s->pinned = true; for (long i = 0; i < (long)n; i++) REAL(s)[i] = 0; }
  NumericVector(SEXP x) : s(x) {}
  R_xlen_t size() const { return s->len; }
  R_xlen_t length() const { return s->len; }
  double &operator[](R_xlen_t i) { return REAL(s)[i]; }
  const double &operator[](R_xlen_t i) const { return REAL(s)[i]; }
  double &operator()(R_xlen_t i) { return REAL(s)[i]; }
  double *begin() { return REAL(s); }
  double *end() { return REAL(s) + s->len; }
  operator SEXP() const { return s; }
};
struct NumericMatrix {
  SEXP s;
  NumericMatrix(int r, int c) : s(Rf_allocMatrix(REALSXP, r, c)) { s->pinned = true; for (long i = 0; i < s->len; i++) REAL(s)[i] = 0; }
  NumericMatrix(SEXP x) : s(x) {}
  R_xlen_t size() const { return s->len; }
  R_xlen_t length() const { return s->len; }
  int nrow() const { return s->nr; }
  int ncol() const { return s->nc; }
  int rows() const { return s->nr; }
  int cols() const { return s->nc; }
  double &operator[](R_xlen_t i) { return REAL(s)[i]; }
  const double &operator[](R_xlen_t i) const { return REAL(s)[i]; }
  double &operator()(int i, int j) { return REAL(s)[(long)j * s->nr + i]; }
  const double &operator()(int i, int j) const { return REAL(s)[(long)j * s->nr + i]; }
  double *begin() { return REAL(s); }
  double *end() { return REAL(s) + s->len; }
  operator SEXP() const { return s; }
};
} // namespace Rcpp
namespace arma {
typedef unsigned long long uword;
struct mat {
  uword n_rows = 0, n_cols = 0, n_elem = 0; double *mem = nullptr;
  mat() {}
  mat(uword r, uword c) : n_rows(r), n_cols(c), n_elem(r * c), mem(new double[r * c + 1]) { for (uword i = 0; i < n_elem; i++) mem[i] = 0; }
  mat(const mat &o) : mat(o.n_rows, o.n_cols) { for (uword i = 0; i < n_elem; i++) mem[i] = o.mem[i]; }
  mat &operator=(const mat &o) { if (this != &o) { delete[] mem; n_rows = o.n_rows; n_cols = o.n_cols; n_elem = o.n_elem; mem = new double[n_elem + 1]; for (uword i = 0; i < n_elem; i++) mem[i] = o.mem[i]; } return *this; }
  ~mat() { delete[] mem; }
  uword size() const { return n_elem; }
  double &operator[](uword i) { return mem[i]; }
  const double &operator[](uword i) const { return mem[i]; }
  double &operator()(uword i) { if (i >= n_elem) throw std::logic_error("index out of bounds"); return mem[i]; }
  double &operator()(uword i, uword j) { if (i >= n_rows || j >= n_cols) throw std::logic_error("index out of bounds"); return mem[j * n_rows + i]; }
  double operator()(uword i, uword j) const { if (i >= n_rows || j >= n_cols) throw std::logic_error("index out of bounds"); return mem[j * n_rows + i]; }
  double *memptr() { return mem; }
};
struct vec : mat { vec() {} explicit vec(uword n) : mat(n, 1) {} };
typedef mat dmat; typedef vec colvec;
} // namespace arma
// The random number generator and the R math library.  The value of a function is a term
// over its name and arguments (nested atan2, which the solver does not interpret); a
// random number depends on how many were drawn before it.
inline int vpr_draws = 0, vpr_rng_open = 0, vpr_rng_error = 0;
inline void GetRNGstate() { if (vpr_rng_open) vpr_rng_error++; vpr_rng_open = 1; }
inline void PutRNGstate() { if (!vpr_rng_open) vpr_rng_error++; vpr_rng_open = 0; }
namespace R {
inline double vpr_f2(int id, double a, double b) { return std::atan2((double)id, std::atan2(a, std::atan2(b, 2.0))); }
inline double vpr_f3(int id, double a, double b, double c) { return std::atan2((double)id, std::atan2(a, std::atan2(b, std::atan2(c, 3.0)))); }
inline double vpr_r(int id, double a, double b) { if (!vpr_rng_open) vpr_rng_error++; return std::atan2((double)(++vpr_draws), vpr_f2(id, a, b)); }
// flags are passed to R as integers and count as true or false
inline double vpr_d(int id, double x, double a, double b, int lg) { return std::atan2(lg ? 5. : 4., vpr_f3(id, x, a, b)); }
inline double vpr_p(int id, double x, double a, double b, int lower, int lg) { return std::atan2(lower ? 3. : 2., vpr_d(id, x, a, b, lg)); }
#define VPR_DIST(NAME, ID) \
  inline double d##NAME(double x, double a, double b, int lg) { return vpr_d(ID, x, a, b, lg); } \
  inline double p##NAME(double x, double a, double b, int lower, int lg) { return vpr_p(ID + 1, x, a, b, lower, lg); } \
  inline double q##NAME(double x, double a, double b, int lower, int lg) { return vpr_p(ID + 2, x, a, b, lower, lg); } \
  inline double r##NAME(double a, double b) { return vpr_r(ID + 3, a, b); }
VPR_DIST(unif, 10) VPR_DIST(norm, 20) VPR_DIST(lnorm, 30) VPR_DIST(gamma, 40) VPR_DIST(beta, 50) VPR_DIST(cauchy, 60) VPR_DIST(weibull, 70) VPR_DIST(logis, 80)
} // namespace R
