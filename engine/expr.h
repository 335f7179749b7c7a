// Hash-consed bit-vector / floating-point expression DAG used by symx.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
  OAnd, OOr, OXor, OShl, OLShr, OAShr, ONot,
  OConcat, OExtract, OZExt, OSExt, OIte,
  OEq, OUlt, OUle, OSlt, OSle,
  // floating point (64-bit patterns)
  OFAdd, OFSub, OFMul, OFDiv, OFRem,
  OFNeg, OFAbs, OFOlt, OFOle, OFOeq, OFUno,
  OS2F, OU2F, OF2S, OF2U,
  OFUn,  // c = function index
  OFBin, // c = function index
  OFrac, // double with truncation a and sign of the fraction b; d makes it unique
};

enum FnId : uint64_t {
  FN_sqrt, FN_floor, FN_ceil, FN_trunc, FN_round, FN_rint,
  FN_sin, FN_cos, FN_tan, FN_asin, FN_acos, FN_atan,
  FN_sinh, FN_cosh, FN_tanh, FN_exp, FN_log, FN_log2, FN_log10, FN_log1p,
  FN_expm1, FN_exp2, FN_cbrt, FN_asinh, FN_acosh, FN_atanh, FN_lgamma, FN_tgamma, FN_erf, FN_erfc,
  FN_pow, FN_atan2, FN_fmod, FN_hypot, FN_remainder, FN_COUNT
};
extern const char *fnName[FN_COUNT];

struct Expr {
  Op op;
  uint8_t w;
  uint8_t leaves; // number of leaves of a tree of ites over constants (0: anything else)
  uint32_t id;
  uint64_t c;
  const Expr *a, *b, *d;
  const std::vector<uint32_t> *vars; // sorted variable ids
};
using E = const Expr *;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
static inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

enum VarKind { VK_Int, VK_Double, VK_Bool, VK_Uninit };
struct VarInfo { std::string name; VarKind kind; unsigned w; E e; unsigned sb; };
extern std::vector<VarInfo> gVars;

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w, VarKind k, unsigned sb = 0); // sb: value fits in sb signed bits on every path
E mkBin(Op op, E a, E b); // arithmetic/logic/comparison (result width 1 for comparisons)
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkF1(Op op, E a); // FNeg FAbs
E mkFBinOp(Op op, E a, E b);
E mkFCmp(Op op, E a, E b);
E mkFrac(E t, E sg, E u);
E mkS2F(E a);
E mkU2F(E a);
E mkF2S(E a, unsigned w);
E mkF2U(E a, unsigned w);
E mkFUn(FnId f, E a);
E mkFBinFn(FnId f, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline bool isC(E e) { return e->op == OConst; }
static inline bool isT(E e) { return e->op == OConst && e->c == 1 && e->w == 1; }
static inline bool isF(E e) { return e->op == OConst && e->c == 0 && e->w == 1; }
static inline E mkAnd1(E a, E b) { return mkBin(OAnd, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(OOr, a, b); }

unsigned knownTZ(E e); // lower bound on number of trailing zero bits
bool intView(E e, E &out); // double expression that is always an integer: its 64-bit value
unsigned sbits(E e);   // signed bit-width bound of the value (<= w)

uint64_t evalConstOp(Op op, unsigned w, uint64_t c, unsigned wa, uint64_t a, unsigned wb, uint64_t b,
                     uint64_t d);
uint64_t fnEval1(uint64_t f, uint64_t a);
uint64_t fnEval2(uint64_t f, uint64_t a, uint64_t b);

struct Model {
  std::unordered_map<uint32_t, uint64_t> vals; // var index -> value
  std::unordered_map<E, uint64_t> memo;
  uint64_t eval(E e);
};
std::string toStr(E e, int depth = 6);
size_t exprCount();
E exprByIdx(uint32_t v);
E rewriteVars(E e, const std::unordered_map<uint32_t, E> &m, std::unordered_map<E, E> &memo);
E rebuild(E e, E a, E b, E d);
E rebuild(E e, E a, E b, E d);
