#pragma once
// Every kind of operand an operation accepts, with its expected elements.
#include "etr_inc.h"
#include <cmath>
using namespace etr;
#ifdef VP_THOROUGH
constexpr int NMAX = 5;
#else
constexpr int NMAX = 3;
#endif
#ifndef IMAX
#define IMAX 30000
#endif
constexpr int CAP = 2 * NMAX + 2;
// One operand's worth of variables; every kind of operand is built from it.
template <bool INTS> struct Side {
  int n = 0;
  double d[CAP];
  int iv[CAP];
  bool bv[CAP];
  double raw[CAP];
  sexp a;
  Vec<int> ai;
  Vec<bool> ab;
  Vec<int> idx;
  int ix[CAP];
  double xs; int is; bool bs;
  Vec<double, Borrow<double>> br;
  explicit Side(int n_) : n(n_), br(raw, (std::size_t)n_) {}
  void dbl() { a = vector_numeric(n); for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; } }
  void itg() { ai = Vec<int>(SI{n}); for (int i = 0; i < n; i++) { iv[i] = vp_int(-IMAX, IMAX); ai[i] = iv[i]; } }
  void lgl() { ab = Vec<bool>(SI{n}); for (int i = 0; i < n; i++) { bv[i] = vp_bool(); ab[i] = bv[i]; } }
};
template <unsigned MASK, typename S, typename F> void operandM(int kind, S &s, F f) {
  switch (kind) {
  case 0: if constexpr (MASK >> 0 & 1) { s.dbl(); f(s.a, [&](int i) { return s.d[i]; }, s.n); break;
    } break;
  case 1: if constexpr (MASK >> 1 & 1) { s.xs = vp_double(); f(s.xs, [&](int) { return s.xs; }, 0); break;
    } break;
  case 2: if constexpr (MASK >> 2 & 1) { s.itg(); f(s.ai, [&](int i) { return s.iv[i]; }, s.n); break;
    } break;
  case 3: if constexpr (MASK >> 3 & 1) { s.is = vp_int(-IMAX, IMAX); f(s.is, [&](int) { return s.is; }, 0); break;
    } break;
  case 4: if constexpr (MASK >> 4 & 1) { s.dbl(); s.xs = vp_double(); // temporary result vector, length n+1
    f(coca(s.a, s.xs), [&](int i) { return i < s.n ? s.d[i] : s.xs; }, s.n + 1); break;
    } break;
  case 5: if constexpr (MASK >> 5 & 1) { { // subset of a variable: arbitrary index vector of length n
    sexp b = vector_numeric(NMAX); double bd[NMAX];
    for (int i = 0; i < NMAX; i++) { bd[i] = vp_double(); b[i] = bd[i]; }
    s.idx = Vec<int>(SI{s.n});
    for (int i = 0; i < s.n; i++) { s.ix[i] = vp_int(1, NMAX); s.idx[i] = s.ix[i]; }
    f(subset(b, s.idx), [&](int i) { return bd[s.ix[i] - 1]; }, s.n); break; }
    } break;
  case 6: if constexpr (MASK >> 6 & 1) { s.dbl(); s.xs = vp_double(); // expression operand
    f(s.a + s.xs, [&](int i) { return s.d[i] + s.xs; }, s.n); break;
    } break;
  case 7: if constexpr (MASK >> 7 & 1) { s.dbl(); f(-s.a, [&](int i) { return -s.d[i]; }, s.n); break;
    } break;
  case 8: if constexpr (MASK >> 8 & 1) { for (int i = 0; i < s.n; i++) s.raw[i] = s.d[i] = vp_double();
    f(s.br, [&](int i) { return s.d[i]; }, s.n); break;
    } break;
  case 9: if constexpr (MASK >> 9 & 1) { s.lgl(); f(s.ab, [&](int i) { return (int)s.bv[i]; }, s.n); break;
    } break;
  }
}
template <typename S, typename F> void operand(int kind, S &s, F f) { operandM<~0u>(kind, s, f); }
constexpr int KINDS = 10;
// type class of an operand kind: 0 double, 1 int, 2 logical
constexpr int kindType(int k) { return k == 9 ? 2 : k == 2 || k == 3 ? 1 : 0; }
