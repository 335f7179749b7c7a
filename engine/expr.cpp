#include "expr.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>

const char *fnName[FN_COUNT] = {
    "sqrt", "floor", "ceil", "trunc", "round", "rint", "sin", "cos", "tan", "asin", "acos", "atan",
    "sinh", "cosh", "tanh", "exp", "log", "log2", "log10", "log1p", "expm1", "exp2", "cbrt",
    "asinh", "acosh", "atanh", "lgamma", "tgamma", "erf", "erfc", "pow", "atan2", "fmod", "hypot", "remainder"};

std::vector<VarInfo> gVars;

namespace {
struct Key {
  Op op; uint8_t w; uint64_t c; E a, b, d;
  bool operator==(const Key &o) const {
    return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d;
  }
};
struct KeyH {
  size_t operator()(const Key &k) const {
    uint64_t h = k.op * 1000003ull + k.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d);
    return h;
  }
};
std::unordered_map<Key, E, KeyH> table;
uint32_t nextId = 1;
static const std::vector<uint32_t> emptyVars;
std::unordered_map<std::string, const std::vector<uint32_t> *> varSets;

const std::vector<uint32_t> *internVars(std::vector<uint32_t> v) {
  if (v.empty()) return &emptyVars;
  std::string k((const char *)v.data(), v.size() * 4);
  auto it = varSets.find(k);
  if (it != varSets.end()) return it->second;
  auto *p = new std::vector<uint32_t>(std::move(v));
  varSets[k] = p;
  return p;
}
const std::vector<uint32_t> *uni(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
  if (x == y || y->empty()) return x;
  if (x->empty()) return y;
  std::vector<uint32_t> r;
  std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
  if (r.size() == x->size()) return x;
  if (r.size() == y->size()) return y;
  return internVars(std::move(r));
}

E intern(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Key k{op, (uint8_t)w, c, a, b, d};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  auto *e = new Expr{op, (uint8_t)w, 0, nextId++, c, a, b, d, &emptyVars};
  if (op == OConst) e->leaves = 1;
  else if (op == OIte && b->leaves && d->leaves && b->leaves + d->leaves <= 24) e->leaves = b->leaves + d->leaves;
  if (op == OVar) e->vars = internVars({(uint32_t)c});
  else {
    auto *v = &emptyVars;
    const std::vector<uint32_t> *r = v;
    if (a) r = uni(r, a->vars);
    if (b) r = uni(r, b->vars);
    if (d) r = uni(r, d->vars);
    e->vars = r;
  }
  table.emplace(k, e);
  return e;
}
} // namespace

size_t exprCount() { return table.size(); }
// operations move into small trees of ites over constants, where they fold
static inline bool tree1(E a) { return a->leaves > 1 && a->w > 1; }
static inline bool tree2(E a, E b) { return a->leaves && b->leaves && (a->leaves > 1 || b->leaves > 1) && a->leaves * b->leaves <= 24 && a->w > 1; }
template <class F> static E mapTree(E a, F f) { return a->op == OIte ? mkIte(a->a, mapTree(a->b, f), mapTree(a->d, f)) : f(a); }
template <class F> static E mapTree2(E a, E b, F f) { return mapTree(a, [&](E x) { return mapTree(b, [&](E y) { return f(x, y); }); }); }

E mkConst(uint64_t v, unsigned w) { return intern(OConst, w, v & maskw(w)); }
E mkVar(const std::string &name, unsigned w, VarKind k, unsigned sb) {
  uint32_t idx = gVars.size();
  gVars.push_back({name, k, w, nullptr, sb ? sb : w});
  E e = intern(OVar, w, idx);
  gVars[idx].e = e;
  return e;
}
E exprByIdx(uint32_t v) { return gVars[v].e; }

static uint64_t f2s(double x, unsigned w) {
  // x86 cvttsd2si semantics ("integer indefinite" when unrepresentable)
  if (w > 32) {
    if (std::isnan(x) || !(x > -9223372036854777856.0 && x < 9223372036854775808.0)) return (0x8000000000000000ull) & maskw(w);
    return (uint64_t)(int64_t)x & maskw(w);
  }
  if (w == 32) {
    if (std::isnan(x) || !(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000ull;
    return (uint64_t)(int64_t)x & maskw(w);
  }
  // narrower: converted through int32
  if (std::isnan(x) || !(x > -2147483649.0 && x < 2147483648.0)) return 0;
  return (uint64_t)(int64_t)x & maskw(w);
}
static uint64_t f2u(double x, unsigned w) {
  if (w <= 32) { // converted through int64
    return f2s(x, 64) & maskw(w);
  }
  if (!(x >= 9223372036854775808.0)) return f2s(x, 64);
  return f2s(x - 9223372036854775808.0, 64) ^ 0x8000000000000000ull;
}
uint64_t fnEval1(uint64_t f, uint64_t av) {
  double a = b2d(av);
  switch (f) {
  case FN_sqrt: return d2b(sqrt(a));
  case FN_floor: return d2b(floor(a));
  case FN_ceil: return d2b(ceil(a));
  case FN_trunc: return d2b(trunc(a));
  case FN_round: return d2b(round(a));
  case FN_rint: return d2b(rint(a));
  case FN_sin: return d2b(sin(a));
  case FN_cos: return d2b(cos(a));
  case FN_tan: return d2b(tan(a));
  case FN_asin: return d2b(asin(a));
  case FN_acos: return d2b(acos(a));
  case FN_atan: return d2b(atan(a));
  case FN_sinh: return d2b(sinh(a));
  case FN_cosh: return d2b(cosh(a));
  case FN_tanh: return d2b(tanh(a));
  case FN_exp: return d2b(exp(a));
  case FN_log: return d2b(log(a));
  case FN_log2: return d2b(log2(a));
  case FN_log10: return d2b(log10(a));
  case FN_log1p: return d2b(log1p(a));
  case FN_expm1: return d2b(expm1(a));
  case FN_exp2: return d2b(exp2(a));
  case FN_cbrt: return d2b(cbrt(a));
  case FN_asinh: return d2b(asinh(a));
  case FN_acosh: return d2b(acosh(a));
  case FN_atanh: return d2b(atanh(a));
  case FN_lgamma: return d2b(lgamma(a));
  case FN_tgamma: return d2b(tgamma(a));
  case FN_erf: return d2b(erf(a));
  case FN_erfc: return d2b(erfc(a));
  }
  fprintf(stderr, "fnEval1 %d\n", (int)f); abort();
}
uint64_t fnEval2(uint64_t f, uint64_t av, uint64_t bv) {
  double a = b2d(av), b = b2d(bv);
  switch (f) {
  case FN_pow: return d2b(pow(a, b));
  case FN_atan2: return d2b(atan2(a, b));
  case FN_fmod: return d2b(fmod(a, b));
  case FN_hypot: return d2b(hypot(a, b));
  case FN_remainder: return d2b(remainder(a, b));
  }
  fprintf(stderr, "fnEval2 %d\n", (int)f); abort();
}

uint64_t evalConstOp(Op op, unsigned w, uint64_t c, unsigned wa, uint64_t a, unsigned wb, uint64_t b,
                     uint64_t d) {
  uint64_t m = maskw(w);
  switch (op) {
  case OAdd: return (a + b) & m;
  case OSub: return (a - b) & m;
  case OMul: return (a * b) & m;
  case OUDiv: return b ? (a / b) & m : m;
  case OSDiv: { int64_t x = sx(a, wa), y = sx(b, wb); if (!y) return (x >= 0 ? ~0ull : 1) & m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case OURem: return b ? (a % b) & m : a;
  case OSRem: { int64_t x = sx(a, wa), y = sx(b, wb); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << b) & m;
  case OLShr: return b >= w ? 0 : (a >> b) & m;
  case OAShr: { int64_t x = sx(a, wa); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case ONot: return ~a & m;
  case OConcat: return ((a << wb) | b) & m;
  case OExtract: return (a >> c) & m;
  case OZExt: return a;
  case OSExt: return (uint64_t)sx(a, wa) & m;
  case OIte: return a ? b : d;
  case OEq: return a == b;
  case OUlt: return a < b;
  case OUle: return a <= b;
  case OSlt: return sx(a, wa) < sx(b, wb);
  case OSle: return sx(a, wa) <= sx(b, wb);
  case OFAdd: return d2b(b2d(a) + b2d(b));
  case OFSub: return d2b(b2d(a) - b2d(b));
  case OFMul: return d2b(b2d(a) * b2d(b));
  case OFDiv: return d2b(b2d(a) / b2d(b));
  case OFRem: return d2b(fmod(b2d(a), b2d(b)));
  case OFNeg: return a ^ 0x8000000000000000ull;
  case OFAbs: return a & 0x7fffffffffffffffull;
  case OFOlt: return b2d(a) < b2d(b);
  case OFOle: return b2d(a) <= b2d(b);
  case OFOeq: return b2d(a) == b2d(b);
  case OFUno: return std::isnan(b2d(a)) || std::isnan(b2d(b));
  case OS2F: return d2b((double)sx(a, wa));
  case OU2F: return d2b((double)a);
  case OF2S: return f2s(b2d(a), w);
  case OF2U: return f2u(b2d(a), w);
  case OFUn: return fnEval1(c, a);
  case OFBin: return fnEval2(c, a, b);
  case OFrac: { int64_t g = sx(b, wb); return d2b((double)sx(a, wa) + (g > 0 ? 0.5 : g < 0 ? -0.5 : 0.0)); }
  default: break;
  }
  fprintf(stderr, "evalConstOp %d\n", op);
  abort();
}

unsigned knownTZ(E e) {
  switch (e->op) {
  case OConst: return e->c == 0 ? e->w : __builtin_ctzll(e->c);
  case OAdd: case OSub: case OOr: case OXor: return std::min(knownTZ(e->a), knownTZ(e->b));
  case OAnd: return std::max(knownTZ(e->a), knownTZ(e->b));
  case OMul: return std::min<unsigned>(e->w, knownTZ(e->a) + knownTZ(e->b));
  case OShl: if (isC(e->b)) return std::min<unsigned>(e->w, knownTZ(e->a) + e->b->c); return knownTZ(e->a);
  case OZExt: case OSExt: { unsigned t = knownTZ(e->a); return t >= e->a->w ? e->w : t; }
  case OIte: return std::min(knownTZ(e->b), knownTZ(e->d));
  default: return 0;
  }
}
unsigned sbits(E e) {
  switch (e->op) {
  case OConst: { int64_t v = sx(e->c, e->w); unsigned n = 1; uint64_t u = v < 0 ? ~(uint64_t)v : (uint64_t)v; while (u) { n++; u >>= 1; } return n; }
  case OSExt: return sbits(e->a);
  case OZExt: return std::min<unsigned>(e->w, e->a->w + 1);
  case OAdd: case OSub: return std::min<unsigned>(e->w, std::max(sbits(e->a), sbits(e->b)) + 1);
  case OMul: return std::min<unsigned>(e->w, sbits(e->a) + sbits(e->b));
  case OIte: return std::max(sbits(e->b), sbits(e->d));
  case OVar: return gVars[e->c].sb;
  default: return e->w;
  }
}

static bool isCmp(Op o) { return o >= OEq && o <= OSle; }
static bool comm(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor || o == OEq; }

E mkNot(E a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->op == ONot) return a->a;
  if (a->w == 1) {
    if (a->op == OUlt) return mkBin(OUle, a->b, a->a);
    if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
    if (a->op == OSlt) return mkBin(OSle, a->b, a->a);
    if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
    if (a->op == OOr) return mkBin(OAnd, mkNot(a->a), mkNot(a->b));
    if (a->op == OAnd) return mkBin(OOr, mkNot(a->a), mkNot(a->b));
  }
  return intern(ONot, a->w, 0, a);
}

E mkBin(Op op, E a, E b) {
  unsigned w = isCmp(op) ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(evalConstOp(op, w, 0, a->w, a->c, b->w, b->c, 0), w);
  if (tree2(a, b)) return mapTree2(a, b, [&](E x, E y) { return mkBin(op, x, y); });
  if (comm(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  if (op == OAnd || op == OOr || op == OXor) { // narrow
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkZExt(mkBin(op, a->a, b->a), w);
    if (a->op == OZExt && isC(b) && b->c <= maskw(a->a->w)) return mkZExt(mkBin(op, a->a, mkConst(b->c, a->a->w)), w);
  }
  switch (op) {
  case OAdd:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, a->a, mkConst(a->b->c + b->c, w));
      if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c + b->c, w), mkConst(a->d->c + b->c, w));
    } else {
      if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
      if (b->op == OAdd && isC(b->b)) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
    }
    break;
  case OSub:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(OAdd, a, mkConst(0 - b->c, w));
    if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
    if (b->op == OAdd && isC(b->b)) return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst(0 - b->b->c, w));
    if (a->op == OAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    break;
  case OMul:
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if (a->op == OAdd && isC(a->b)) return mkBin(OAdd, mkBin(OMul, a->a, b), mkConst(a->b->c * b->c, w));
      if (a->op == OMul && isC(a->b)) return mkBin(OMul, a->a, mkConst(a->b->c * b->c, w));
    }
    break;
  case OUDiv:
    if (isC(b) && b->c == 1) return a;
    break;
  case OSDiv:
    if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c != 0 && (b->c & (b->c - 1)) == 0 && sx(b->c, w) > 0) {
      unsigned k = __builtin_ctzll(b->c);
      if (knownTZ(a) >= k) return mkBin(OAShr, a, mkConst(k, w));
    }
    break;
  case OURem: case OSRem:
    if (isC(b) && b->c == 1) return mkConst(0, w);
    break;
  case OAnd:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a; }
    if (w == 1) { if (a->op == ONot && a->a == b) return mkFalse(); if (b->op == ONot && b->a == a) return mkFalse(); }
    if (isC(b) && b->c + 1 && ((b->c & (b->c + 1)) == 0)) { // low mask
      unsigned k = 64 - __builtin_clzll(b->c);
      if (k < w) return mkZExt(mkExtract(a, 0, k), w);
    }
    break;
  case OOr:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; }
    if (w == 1) { if (a->op == ONot && a->a == b) return mkTrue(); if (b->op == ONot && b->a == a) return mkTrue(); }
    break;
  case OXor:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return mkNot(a); }
    break;
  case OShl:
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); return mkBin(OMul, a, mkConst(1ull << b->c, w)); }
    break;
  case OLShr:
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, b->c, w - b->c), w); }
    break;
  case OAShr:
    if (isC(b)) { if (b->c == 0) return a;
      if (b->c < w) {
        if (a->op == OMul && isC(a->b) && a->b->c == (1ull << b->c) && sbits(a->a) + b->c <= w) return a->a;
      } }
    break;
  case OEq:
    if (a == b) return mkTrue();
    if (isC(b)) {
      if (w == 1 && a->w == 1) return b->c ? a : mkNot(a);
      if (a->op == OOr && b->c == 0) return mkBin(OAnd, mkBin(OEq, a->a, b), mkBin(OEq, a->b, b));
      if (a->op == OZExt) {
        if (b->c > maskw(a->a->w)) return mkFalse();
        return mkBin(OEq, a->a, mkConst(b->c, a->a->w));
      }
      if (a->op == OSExt) {
        uint64_t t = b->c & maskw(a->a->w);
        if (((uint64_t)sx(t, a->a->w) & maskw(a->w)) != b->c) return mkFalse();
        return mkBin(OEq, a->a, mkConst(t, a->a->w));
      }
      if (a->op == OAdd && isC(a->b)) return mkBin(OEq, a->a, mkConst(b->c - a->b->c, a->w));
      if (a->op == OIte) {
        if (isC(a->b) && isC(a->d)) {
          bool x = a->b->c == b->c, y = a->d->c == b->c;
          if (x && y) return mkTrue();
          if (!x && !y) return mkFalse();
          return x ? a->a : mkNot(a->a);
        }
        if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkBin(OEq, a->b, b), mkBin(OEq, a->d, b));
      }
      if (a->op == OMul && isC(a->b)) {
        unsigned tz = knownTZ(a->b);
        if (tz && (b->c & ((1ull << tz) - 1))) return mkFalse();
        // x * c == k with no wrap possible
        if (a->b->c && sx(a->b->c, a->w) > 0 && sbits(a->a) + sbits(a->b) <= a->w) {
          int64_t k = sx(b->c, a->w), cc = sx(a->b->c, a->w);
          if (k % cc) return mkFalse();
          return mkBin(OEq, a->a, mkConst((uint64_t)(k / cc), a->w));
        }
      }
    } else {
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
      if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
      if (a->op == OAdd && b->op == OAdd && isC(a->b) && a->b == b->b) return mkBin(OEq, a->a, b->a);
      if (a->op == OAdd && isC(a->b) && a->a == b) return mkFalse();
      if (b->op == OAdd && isC(b->b) && b->a == a) return mkFalse();
    }
    break;
  case OUlt:
    if (a == b) return mkFalse();
    if (isC(b) && b->c == 0) return mkFalse();
    if (isC(b) && b->c == 1) return mkBin(OEq, a, mkConst(0, a->w));
    if (isC(a) && a->c == maskw(a->w)) return mkFalse();
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OUlt, a->a, b->a);
    if (a->op == OZExt && isC(b)) { if (b->c > maskw(a->a->w)) return mkTrue(); return mkBin(OUlt, a->a, mkConst(b->c, a->a->w)); }
    if (b->op == OZExt && isC(a)) { if (a->c > maskw(b->a->w)) return mkFalse(); return mkBin(OUlt, mkConst(a->c, b->a->w), b->a); }
    break;
  case OUle:
    if (a == b) return mkTrue();
    if (isC(a) && a->c == 0) return mkTrue();
    if (isC(b) && b->c == maskw(a->w)) return mkTrue();
    if (isC(b) && b->c == 0) return mkBin(OEq, a, b);
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OUle, a->a, b->a);
    if (a->op == OZExt && isC(b)) { if (b->c >= maskw(a->a->w)) return mkTrue(); return mkBin(OUle, a->a, mkConst(b->c, a->a->w)); }
    if (b->op == OZExt && isC(a)) { if (a->c > maskw(b->a->w)) return mkFalse(); return mkBin(OUle, mkConst(a->c, b->a->w), b->a); }
    break;
  case OSlt: case OSle: {
    if (a == b) return mkConst(op == OSle, 1);
    unsigned aw = a->w;
    if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == OSExt && isC(b)) {
      int64_t k = sx(b->c, aw), lo = sx(1ull << (a->a->w - 1), a->a->w), hi = (int64_t)(maskw(a->a->w) >> 1);
      if (k > hi) return mkTrue();
      if (k < lo) return mkFalse();
      return mkBin(op, a->a, mkConst((uint64_t)k, a->a->w));
    }
    if (b->op == OSExt && isC(a)) {
      int64_t k = sx(a->c, aw), lo = sx(1ull << (b->a->w - 1), b->a->w), hi = (int64_t)(maskw(b->a->w) >> 1);
      if (k > hi) return mkFalse();
      if (k < lo) return mkTrue();
      return mkBin(op, mkConst((uint64_t)k, b->a->w), b->a);
    }
    if (a->op == OZExt && isC(b)) {
      int64_t k = sx(b->c, aw);
      if (k < 0) return mkFalse();
      return mkBin(op == OSlt ? OUlt : OUle, a, b);
    }
    if (b->op == OZExt && isC(a)) {
      int64_t k = sx(a->c, aw);
      if (k < 0) return mkTrue();
      return mkBin(op == OSlt ? OUlt : OUle, a, b);
    }
    if (a->op == OZExt && b->op == OZExt) return mkBin(op == OSlt ? OUlt : OUle, a, b);
    break;
  }
  default: break;
  }
  // push comparisons with constants into constant ites
  if (isCmp(op) && op != OEq) {
    if (isC(b) && a->op == OIte && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
    if (isC(a) && b->op == OIte && (isC(b->b) || isC(b->d))) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->d));
  }
  return intern(op, w, 0, a, b);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == ONot) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isT(a) && isF(b)) return c;
    if (isF(a) && isT(b)) return mkNot(c);
    if (isT(a)) return mkOr1(c, b);
    if (isF(a)) return mkAnd1(mkNot(c), b);
    if (isT(b)) return mkOr1(mkNot(c), a);
    if (isF(b)) return mkAnd1(c, a);
  }
  if (a->op == OIte && a->a == c) a = a->b;
  if (b->op == OIte && b->a == c) b = b->d;
  if (a == b) return a;
  return intern(OIte, a->w, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->op == OExtract) return mkExtract(a->a, lo + a->c, w);
  if (a->op == OZExt || a->op == OSExt) {
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (a->op == OZExt) {
      if (lo >= a->a->w) return mkConst(0, w);
      return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
    }
    if (lo == 0) return mkSExt(a->a, w);
  }
  if (a->op == OConcat) {
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
  }
  if (a->op == OIte && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
  if (lo == 0 && (a->op == OAdd || a->op == OSub || a->op == OMul || a->op == OAnd || a->op == OOr || a->op == OXor))
    return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if (a->op == ONot) return mkNot(mkExtract(a->a, lo, w));
  return intern(OExtract, w, lo, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->c == lo->c + lo->w)
    return mkExtract(lo->a, lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  return intern(OConcat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkZExt(x, w); });
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  return intern(OZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->c, a->w), w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkSExt(x, w); });
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OAdd || a->op == OSub) {
    if (std::max(sbits(a->a), sbits(a->b)) < a->w) return mkBin(a->op, mkSExt(a->a, w), mkSExt(a->b, w));
  }
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return intern(OSExt, w, 0, a);
}
E mkF1(Op op, E a) {
  if (isC(a)) return mkConst(evalConstOp(op, 64, 0, 64, a->c, 0, 0, 0), 64);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkF1(op, x); });
  if (op == OFNeg && a->op == OFNeg) return a->a;
  if (op == OFAbs && (a->op == OFAbs)) return a;
  if (op == OFAbs && a->op == OFNeg) return mkF1(OFAbs, a->a);
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkF1(op, a->b), mkF1(op, a->d));
  E x;
  if (op == OFAbs && intView(a, x)) {
    E r = mkIte(mkBin(OSlt, x, mkConst(0, 64)), mkBin(OSub, mkConst(0, 64), x), x);
    if (sbits(r) <= 53) return mkS2F(r);
  }
  return intern(op, 64, 0, a);
}
// integer view of a double expression: value == signed integer expression of width 64, never -0
bool intView(E e, E &out) {
  if (e->op == OS2F && sbits(e->a) <= 53) { out = mkSExt(e->a, 64); return true; }
  if (e->op == OU2F && e->a->w < 53) { out = mkZExt(e->a, 64); return true; }
  if (isC(e)) {
    double d = b2d(e->c);
    if (d == std::floor(d) && std::fabs(d) < 4503599627370496.0 && e->c != 0x8000000000000000ull) {
      out = mkConst((uint64_t)(int64_t)d, 64);
      return true;
    }
  }
  if (e->op == OIte) {
    E x, y;
    if (intView(e->b, x) && intView(e->d, y)) { out = mkIte(e->a, x, y); return true; }
  }
  return false;
}
static bool neverNaN(E e) {
  switch (e->op) {
  case OConst: return !std::isnan(b2d(e->c));
  case OS2F: case OU2F: case OFrac: return true;
  case OFNeg: case OFAbs: return neverNaN(e->a);
  case OIte: return neverNaN(e->b) && neverNaN(e->d);
  default: return false;
  }
}
E mkFBinOp(Op op, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalConstOp(op, 64, 0, 64, a->c, 64, b->c, 0), 64);
  if (tree2(a, b)) return mapTree2(a, b, [&](E x, E y) { return mkFBinOp(op, x, y); });
  if (op == OFAdd || op == OFMul) { if (a->id > b->id) std::swap(a, b); }
  if (op == OFAdd || op == OFSub) {
    E x, y;
    if (intView(a, x) && intView(b, y)) {
      E r = mkBin(op == OFAdd ? OAdd : OSub, x, y);
      if (sbits(r) <= 53) return mkS2F(r);
    }
    // x - c == x + (-c), exact in IEEE
    if (op == OFSub && isC(b) && !std::isnan(b2d(b->c))) return mkFBinOp(OFAdd, a, mkF1(OFNeg, b));
    if (op == OFSub && b->op == OFNeg) return mkFBinOp(OFAdd, a, b->a);
  }
  if (op == OFMul) {
    // x * 1.0
    if (isC(a) && b2d(a->c) == 1.0) return b;
    if (isC(b) && b2d(b->c) == 1.0) return a;
  }
  if (op == OFDiv && isC(b) && b2d(b->c) == 1.0) return a;
  return intern(op, 64, 0, a, b);
}
E mkFCmp(Op op, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(evalConstOp(op, 1, 0, 64, a->c, 64, b->c, 0), 1);
  if (tree2(a, b)) return mapTree2(a, b, [&](E x, E y) { return mkFCmp(op, x, y); });
  if (op == OFUno) {
    if (isC(a)) { if (std::isnan(b2d(a->c))) return mkTrue(); return mkFCmp(OFUno, b, b); }
    if (isC(b)) { if (std::isnan(b2d(b->c))) return mkTrue(); if (a != b) return mkFCmp(OFUno, a, a); }
    if (a == b) {
      if (neverNaN(a)) return mkFalse();
      if (a->op == OFNeg || a->op == OFAbs) return mkFCmp(OFUno, a->a, a->a);
      if (a->op == OIte) return mkIte(a->a, mkFCmp(op, a->b, a->b), mkFCmp(op, a->d, a->d));
      return intern(op, 1, 0, a, a);
    }
    return mkOr1(mkFCmp(OFUno, a, a), mkFCmp(OFUno, b, b));
  }
  if ((isC(a) && std::isnan(b2d(a->c))) || (isC(b) && std::isnan(b2d(b->c)))) return mkFalse();
  if (op == OFOeq && a->id > b->id) std::swap(a, b);
  if (a == b) { if (op == OFOlt) return mkFalse(); return mkNot(mkFCmp(OFUno, a, a)); }
  // a - b > 0 is a > b (gradual underflow; NaN and inf - inf give false on both sides)
  if (op == OFOlt && isC(a) && b2d(a->c) == 0.0 && b->op == OFSub) return mkFCmp(OFOlt, b->b, b->a);
  if (op == OFOlt && isC(b) && b2d(b->c) == 0.0 && a->op == OFSub) return mkFCmp(OFOlt, a->a, a->b);
  E x, y;
  bool ia = intView(a, x), ib = intView(b, y);
  // comparison of a number given by its truncation with an integer
  auto asInt = [](E q, bool iv, E &o) { if (iv) return true; if (!isC(q)) return false; double k = b2d(q->c); if (std::fabs(k) > 1e15 || k != std::floor(k)) return false; o = mkConst((uint64_t)(int64_t)k, 64); return true; };
  if (a->op == OFrac && asInt(b, ib, y)) {
    E T = mkSExt(a->a, 64), g = a->b, z = mkConst(0, g->w);
    E tie = mkBin(OEq, T, y);
    if (op == OFOeq) return mkAnd1(tie, mkBin(OEq, g, z));
    return mkOr1(mkBin(OSlt, T, y), mkAnd1(tie, mkBin(op == OFOlt ? OSlt : OSle, g, z)));
  }
  if (b->op == OFrac && asInt(a, ia, x)) {
    E T = mkSExt(b->a, 64), g = b->b, z = mkConst(0, g->w);
    E tie = mkBin(OEq, T, x);
    if (op == OFOeq) return mkAnd1(tie, mkBin(OEq, g, z));
    return mkOr1(mkBin(OSlt, x, T), mkAnd1(tie, mkBin(op == OFOlt ? OSlt : OSle, z, g)));
  }
  if (ia && ib) return mkBin(op == OFOlt ? OSlt : op == OFOle ? OSle : OEq, x, y);
  const double LIM = 4503599627370496.0;
  if (ia && isC(b)) {
    double k = b2d(b->c);
    if (k > LIM) return mkConst(op != OFOeq, 1);
    if (k < -LIM) return mkFalse();
    // k not an integer, or -0
    if (op == OFOeq) return k == std::floor(k) ? mkBin(OEq, x, mkConst((uint64_t)(int64_t)k, 64)) : mkFalse();
    if (op == OFOlt) return mkBin(OSlt, x, mkConst((uint64_t)(int64_t)std::ceil(k), 64));
    return mkBin(OSle, x, mkConst((uint64_t)(int64_t)std::floor(k), 64));
  }
  if (ib && isC(a)) {
    double k = b2d(a->c);
    if (k > LIM) return mkFalse();
    if (k < -LIM) return mkConst(op != OFOeq, 1);
    if (op == OFOeq) return k == std::floor(k) ? mkBin(OEq, y, mkConst((uint64_t)(int64_t)k, 64)) : mkFalse();
    if (op == OFOlt) return mkBin(OSlt, mkConst((uint64_t)(int64_t)std::floor(k), 64), y);
    return mkBin(OSle, mkConst((uint64_t)(int64_t)std::ceil(k), 64), y);
  }
  if (a->op == OIte && isC(b) && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkFCmp(op, a->b, b), mkFCmp(op, a->d, b));
  if (b->op == OIte && isC(a) && (isC(b->b) || isC(b->d))) return mkIte(b->a, mkFCmp(op, a, b->b), mkFCmp(op, a, b->d));
  return intern(op, 1, 0, a, b);
}
E mkS2F(E a) {
  if (isC(a)) return mkConst(d2b((double)sx(a->c, a->w)), 64);
  if (tree1(a)) return mapTree(a, mkS2F);
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkS2F(a->b), mkS2F(a->d));
  if (a->op == OSExt) return mkS2F(a->a);
  if (a->op == OZExt) return mkU2F(a->a);
  if (a->w < 64 && (a->op == OAdd || a->op == OSub)) { // canonical 64-bit form
    E y = mkSExt(a, 64);
    if (y->op != OSExt) return mkS2F(y);
  }
  return intern(OS2F, 64, 0, a);
}
E mkU2F(E a) {
  if (isC(a)) return mkConst(d2b((double)a->c), 64);
  if (tree1(a)) return mapTree(a, mkU2F);
  if (a->w == 1) return mkIte(a, mkConst(d2b(1.0), 64), mkConst(d2b(0.0), 64));
  if (a->op == OZExt) return mkU2F(a->a);
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkU2F(a->b), mkU2F(a->d));
  return intern(OU2F, 64, 0, a);
}
E mkFrac(E t, E g, E u) {
  return intern(OFrac, 64, 0, t, g, u);
}
E mkF2S(E a, unsigned w) {
  if (a->op == OFrac) return w >= a->a->w ? mkSExt(a->a, w) : mkExtract(a->a, 0, w);
  if (isC(a)) return mkConst(evalConstOp(OF2S, w, 0, 64, a->c, 0, 0, 0), w);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkF2S(x, w); });
  E x;
  if (intView(a, x)) {
    if (w >= 64) return x;
    if (sbits(x) <= w) return mkExtract(x, 0, w);
  }
  if (a->op == OIte && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkF2S(a->b, w), mkF2S(a->d, w));
  return intern(OF2S, w, 0, a);
}
E mkF2U(E a, unsigned w) {
  if (a->op == OFrac) return w >= a->a->w ? mkSExt(a->a, w) : mkExtract(a->a, 0, w);
  if (isC(a)) return mkConst(evalConstOp(OF2U, w, 0, 64, a->c, 0, 0, 0), w);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkF2U(x, w); });
  E x;
  if (intView(a, x)) return mkExtract(x, 0, w);
  if (a->op == OIte && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkF2U(a->b, w), mkF2U(a->d, w));
  return intern(OF2U, w, 0, a);
}
E mkFUn(FnId f, E a) {
  if (isC(a)) return mkConst(fnEval1(f, a->c), 64);
  if (tree1(a)) return mapTree(a, [&](E x) { return mkFUn(f, x); });
  E x;
  if (a->op == OFrac && f == FN_trunc) return mkS2F(a->a);
  if (f >= FN_floor && f <= FN_rint && intView(a, x)) return a;
  if (f >= FN_floor && f <= FN_rint && a->op == OFUn && a->c >= FN_floor && a->c <= FN_rint) return a;
  if (a->op == OIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkFUn(f, a->b), mkFUn(f, a->d));
  return intern(OFUn, 64, f, a);
}
E mkFBinFn(FnId f, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(fnEval2(f, a->c, b->c), 64);
  if (f == FN_pow && isC(b)) {
    if (b2d(b->c) == 1.0) return a;
  }
  return intern(OFBin, 64, f, a, b);
}

E rebuild(E e, E a, E b, E d) {
  switch (e->op) {
  case OConst: case OVar: return e;
  case ONot: return mkNot(a);
  case OConcat: return mkConcat(a, b);
  case OExtract: return mkExtract(a, e->c, e->w);
  case OZExt: return mkZExt(a, e->w);
  case OSExt: return mkSExt(a, e->w);
  case OIte: return mkIte(a, b, d);
  case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: return mkFBinOp(e->op, a, b);
  case OFNeg: case OFAbs: return mkF1(e->op, a);
  case OFOlt: case OFOle: case OFOeq: case OFUno: return mkFCmp(e->op, a, b);
  case OS2F: return mkS2F(a);
  case OU2F: return mkU2F(a);
  case OF2S: return mkF2S(a, e->w);
  case OFrac: return mkFrac(a, b, d);
  case OF2U: return mkF2U(a, e->w);
  case OFUn: return mkFUn((FnId)e->c, a);
  case OFBin: return mkFBinFn((FnId)e->c, a, b);
  default: return mkBin(e->op, a, b);
  }
}
E rewriteVars(E e, const std::unordered_map<uint32_t, E> &m, std::unordered_map<E, E> &memo) {
  if (e->vars->empty()) return e;
  if (e->op == OVar) { auto it = m.find((uint32_t)e->c); return it == m.end() ? e : it->second; }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E a = e->a ? rewriteVars(e->a, m, memo) : nullptr;
  E b = e->b ? rewriteVars(e->b, m, memo) : nullptr;
  E d = e->d ? rewriteVars(e->d, m, memo) : nullptr;
  E r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e, a, b, d);
  memo[e] = r;
  return r;
}

uint64_t Model::eval(E e) {
  if (e->op == OConst) return e->c;
  if (e->op == OVar) { auto it = vals.find((uint32_t)e->c); return it == vals.end() ? 0 : it->second & maskw(e->w); }
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  uint64_t r;
  if (e->op == OIte) r = eval(e->a) ? eval(e->b) : eval(e->d);
  else {
    uint64_t a = e->a ? eval(e->a) : 0, b = e->b ? eval(e->b) : 0, d = e->d ? eval(e->d) : 0;
    r = evalConstOp(e->op, e->w, e->c, e->a ? e->a->w : 0, a, e->b ? e->b->w : 0, b, d);
  }
  memo[e] = r;
  return r;
}
static const char *opn[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "!", "concat", "extract", "zext", "sext", "ite", "==", "u<", "u<=", "s<", "s<=", "f+", "f-", "f*", "f/", "f%", "fneg", "fabs", "f<", "f<=", "f==", "fnan", "s2f", "u2f", "f2s", "f2u", "fn", "fn2", "frac"};
std::string toStr(E e, int depth) {
  if (e->op == OConst) { char b[64]; snprintf(b, 64, "%lld:%d", (long long)sx(e->c, e->w), e->w); return b; }
  if (e->op == OVar) return gVars[e->c].name;
  if (depth == 0) return "...";
  std::string s = "(";
  s += (e->op == OFUn || e->op == OFBin) ? fnName[e->c] : opn[e->op];
  if (e->op == OExtract) s += "@" + std::to_string(e->c) + "#" + std::to_string(e->w);
  if (e->a) s += " " + toStr(e->a, depth - 1);
  if (e->b) s += " " + toStr(e->b, depth - 1);
  if (e->d) s += " " + toStr(e->d, depth - 1);
  return s + ")";
}
