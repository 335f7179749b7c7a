// Translation of Expr DAGs to z3 and query interface.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <z3++.h>

enum Mode { M_UF, M_EXACT, M_REAL };
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

struct SmtStats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, assertQueries = 0, pcQueries = 0;
  double time = 0;
};

class Smt {
public:
  Smt();
  // satisfiability of the conjunction; on SAT fills model values of the variables involved
  Res check(const std::vector<E> &cs, Mode m, std::unordered_map<uint32_t, uint64_t> *model, unsigned timeoutMs);
  // conj /\ not(and_i (a_i == b_i)) with no simplification on our side
  Res checkTrivialBatch(const std::vector<E> &cs, const std::vector<std::pair<E, E>> &eqs, unsigned timeoutMs);
  SmtStats st;
  std::string dumpLast;

private:
  z3::context c;
  z3::sort bvs(unsigned w) { return c.bv_sort(w); }
  z3::sort F;
  std::unordered_map<E, Z3_ast> memo[3];
  std::unordered_map<E, z3::expr *> memoE[3];
  std::map<std::string, z3::func_decl *> ufs;
  z3::expr tr(E e, Mode m);
  z3::expr tr0(E e, Mode m);
  z3::expr trReal(E e, bool &ok);          // real-valued translation of a double expression
  z3::expr trRealB(E e, bool &ok);         // boolean over reals
  std::unordered_map<E, z3::expr *> memoR, memoI;
  z3::expr trInt(E e, bool &ok);           // mathematical integer value of a signed bv (only if exactly representable)
  z3::expr fp(E e, Mode m);                // FP-sorted view
  z3::expr uf(const std::string &n, std::vector<z3::expr> as, z3::sort r);
  z3::expr b1(const z3::expr &b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
  z3::expr boolOf(E e, Mode m);
  std::vector<z3::expr> side; // side conditions for REAL mode
  std::unordered_map<std::string, std::pair<Res, std::unordered_map<uint32_t, uint64_t>>> cache;
  std::unordered_map<uint32_t, z3::expr *> realVars, realIntVars;
};
