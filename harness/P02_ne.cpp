#define OPNAME "ne"
#define OPID ne
#define OP !=
#define WANT(x, y) (!eqv((x), (y)))
#include <cmath>
static inline bool eqv(double x, double y) { return (x == y) | (std::fabs(x - y) < 1E-3); }
#include "P02.inc"
