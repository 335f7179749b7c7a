// BOUND: scalars of every type and every double bit pattern; vectors of length 1..4 (6 thorough); matrices of 1..3 rows and columns; sums, products, comparisons, subsets and temporaries where the function accepts them
// OUTSIDE: isNA, isInf and length of subsets, unary operations and results of functions do not compile; the R level NA of integers and logicals
#include "operands.h"
#ifdef VP_THOROUGH
constexpr int QN = 6;
#else
constexpr int QN = 4;
#endif
static inline bool nan_(double d) { return d != d; }
static inline bool inf_(double d) { return (d == __builtin_inf()) | (d == -__builtin_inf()); }
template <typename T> const T &ro(const T &t) { return t; }
template <typename Q, typename P> void expectB(const Q &q0, int n, P p, const char *id) { Vec<bool> q; q = q0; vp_eqi((long)q.size(), n, "query.size"); vp_eqi(q.im(), 0, "query.matrix"); for (int i = 0; i < n; i++) vp_eqi(q[i], p(i), id); }
template <typename M> void expectDim(const M &m, int r, int c) { Vec<int> d; d = dim(m); vp_eqi((long)d.size(), 2, "dim.size"); vp_eqi(d[0], r, "dim.rows"); vp_eqi(d[1], c, "dim.cols"); }
