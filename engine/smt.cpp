#include "smt.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

using z3::expr;

Smt::Smt() : F(c) { F = c.fpa_sort(11, 53); }

expr Smt::uf(const std::string &n, std::vector<expr> as, z3::sort r) {
  std::string key = n + "/" + std::to_string(as.size());
  auto it = ufs.find(key);
  if (it == ufs.end()) {
    z3::sort_vector sv(c);
    for (auto &a : as) sv.push_back(a.get_sort());
    it = ufs.emplace(key, new z3::func_decl(c.function(n.c_str(), sv, r))).first;
  }
  z3::expr_vector ev(c);
  for (auto &a : as) ev.push_back(a);
  return (*it->second)(ev);
}

static expr mkfp(z3::context &c, Z3_ast a) { return z3::to_expr(c, a); }

expr Smt::fp(E e, Mode m) {
  Z3_context x = c;
  if (m == M_EXACT) {
    Z3_ast rne = Z3_mk_fpa_round_nearest_ties_to_even(x);
    expr rm = mkfp(c, rne);
    switch (e->op) {
    case OFAdd: return mkfp(c, Z3_mk_fpa_add(x, rm, fp(e->a, m), fp(e->b, m)));
    case OFSub: return mkfp(c, Z3_mk_fpa_sub(x, rm, fp(e->a, m), fp(e->b, m)));
    case OFMul: return mkfp(c, Z3_mk_fpa_mul(x, rm, fp(e->a, m), fp(e->b, m)));
    case OFDiv: return mkfp(c, Z3_mk_fpa_div(x, rm, fp(e->a, m), fp(e->b, m)));
    case OFNeg: return mkfp(c, Z3_mk_fpa_neg(x, fp(e->a, m)));
    case OFAbs: return mkfp(c, Z3_mk_fpa_abs(x, fp(e->a, m)));
    case OIte: return z3::ite(boolOf(e->a, m), fp(e->b, m), fp(e->d, m));
    default: break;
    }
  }
  if (e->op == OS2F) { expr rm = mkfp(c, Z3_mk_fpa_round_nearest_ties_to_even(x)); return mkfp(c, Z3_mk_fpa_to_fp_signed(x, rm, tr(e->a, m), F)); }
  if (e->op == OU2F) { expr rm = mkfp(c, Z3_mk_fpa_round_nearest_ties_to_even(x)); return mkfp(c, Z3_mk_fpa_to_fp_unsigned(x, rm, tr(e->a, m), F)); }
  return mkfp(c, Z3_mk_fpa_to_fp_bv(x, tr(e, m), F));
}

expr Smt::boolOf(E e, Mode m) {
  switch (e->op) {
  case OConst: return c.bool_val(e->c != 0);
  case ONot: if (e->w == 1) return !boolOf(e->a, m); break;
  case OAnd: if (e->w == 1) return boolOf(e->a, m) && boolOf(e->b, m); break;
  case OOr: if (e->w == 1) return boolOf(e->a, m) || boolOf(e->b, m); break;
  case OEq: return tr(e->a, m) == tr(e->b, m);
  case OUlt: return z3::ult(tr(e->a, m), tr(e->b, m));
  case OUle: return z3::ule(tr(e->a, m), tr(e->b, m));
  case OSlt: return tr(e->a, m) < tr(e->b, m);
  case OSle: return tr(e->a, m) <= tr(e->b, m);
  case OFOlt: case OFOle: case OFOeq: case OFUno: {
    if (m == M_EXACT || e->a->op == OS2F || e->b->op == OS2F) {
      expr a = fp(e->a, m), b = fp(e->b, m);
      if (e->op == OFOlt) return mkfp(c, Z3_mk_fpa_lt(c, a, b));
      if (e->op == OFOle) return mkfp(c, Z3_mk_fpa_leq(c, a, b));
      if (e->op == OFOeq) return mkfp(c, Z3_mk_fpa_eq(c, a, b));
      return mkfp(c, Z3_mk_fpa_is_nan(c, a)) || mkfp(c, Z3_mk_fpa_is_nan(c, b));
    }
    // pure bit-vector encoding of IEEE comparisons
    expr a = tr(e->a, m), b = tr(e->b, m);
    expr inf = c.bv_val((uint64_t)0x7ff0000000000000ull, 64), am = c.bv_val((uint64_t)0x7fffffffffffffffull, 64), z = c.bv_val(0, 64);
    auto nan = [&](const expr &q) { return z3::ugt(q & am, inf); };
    if (e->op == OFUno) return e->a == e->b ? nan(a) : (nan(a) || nan(b));
    expr bothz = ((a | b) & am) == z;
    expr eq = a == b || bothz;
    if (e->op == OFOeq) return !nan(a) && !nan(b) && eq;
    expr na = a < z, nb = b < z; // signed: sign bit
    expr lt = z3::ite(na, z3::ite(nb, z3::ult(b, a), !bothz), z3::ite(nb, c.bool_val(false), z3::ult(a, b)));
    if (e->op == OFOlt) return !nan(a) && !nan(b) && lt;
    return !nan(a) && !nan(b) && (lt || eq);
  }
  case OIte: if (e->w == 1) return z3::ite(boolOf(e->a, m), boolOf(e->b, m), boolOf(e->d, m)); break;
  default: break;
  }
  return tr(e, m) == c.bv_val(1, 1);
}

expr Smt::tr(E e, Mode m) {
  auto it = memoE[m].find(e);
  if (it != memoE[m].end()) return *it->second;
  expr r = tr0(e, m);
  memoE[m].emplace(e, new expr(r));
  return r;
}

expr Smt::tr0(E e, Mode m) {
  Z3_context x = c;
  switch (e->op) {
  case OConst: return c.bv_val((uint64_t)e->c, e->w);
  case OVar: return c.bv_const(gVars[e->c].name.c_str(), e->w);
  case OAdd: return tr(e->a, m) + tr(e->b, m);
  case OSub: return tr(e->a, m) - tr(e->b, m);
  case OMul: return tr(e->a, m) * tr(e->b, m);
  case OUDiv: return z3::udiv(tr(e->a, m), tr(e->b, m));
  case OSDiv: return tr(e->a, m) / tr(e->b, m);
  case OURem: return z3::urem(tr(e->a, m), tr(e->b, m));
  case OSRem: return z3::srem(tr(e->a, m), tr(e->b, m));
  case OAnd: return tr(e->a, m) & tr(e->b, m);
  case OOr: return tr(e->a, m) | tr(e->b, m);
  case OXor: return tr(e->a, m) ^ tr(e->b, m);
  case OShl: return z3::shl(tr(e->a, m), tr(e->b, m));
  case OLShr: return z3::lshr(tr(e->a, m), tr(e->b, m));
  case OAShr: return z3::ashr(tr(e->a, m), tr(e->b, m));
  case ONot: return ~tr(e->a, m);
  case OConcat: return z3::concat(tr(e->a, m), tr(e->b, m));
  case OExtract: return tr(e->a, m).extract(e->c + e->w - 1, e->c);
  case OZExt: return z3::zext(tr(e->a, m), e->w - e->a->w);
  case OSExt: return z3::sext(tr(e->a, m), e->w - e->a->w);
  case OIte: return z3::ite(boolOf(e->a, m), tr(e->b, m), tr(e->d, m));
  case OEq: case OUlt: case OUle: case OSlt: case OSle: case OFOlt: case OFOle: case OFOeq: case OFUno:
    return b1(boolOf(e, m));
  case OFNeg: return tr(e->a, m) ^ c.bv_val((uint64_t)1 << 63, 64);
  case OFAbs: return tr(e->a, m) & c.bv_val((uint64_t)0x7fffffffffffffffull, 64);
  case OFAdd: case OFSub: case OFMul: case OFDiv: {
    if (m == M_EXACT) return mkfp(c, Z3_mk_fpa_to_ieee_bv(x, fp(e, m)));
    const char *n = e->op == OFAdd ? "fadd" : e->op == OFSub ? "fsub" : e->op == OFMul ? "fmul" : "fdiv";
    return uf(n, {tr(e->a, m), tr(e->b, m)}, c.bv_sort(64));
  }
  case OFrac: return uf("frac", {tr(e->a, m), tr(e->b, m), tr(e->d, m)}, c.bv_sort(64)); // any double: fewer facts, never more
  case OFRem: return uf("fmod", {tr(e->a, m), tr(e->b, m)}, c.bv_sort(64));
  case OS2F: case OU2F: return mkfp(c, Z3_mk_fpa_to_ieee_bv(x, fp(e, m)));
  case OF2S: case OF2U: {
    expr f = fp(e->a, m);
    expr rtz = mkfp(c, Z3_mk_fpa_round_toward_zero(x));
    auto fv = [&](double d) { return mkfp(c, Z3_mk_fpa_numeral_double(x, d, F)); };
    auto lt = [&](const expr &p, const expr &q) { return mkfp(c, Z3_mk_fpa_lt(x, p, q)); };
    auto leq = [&](const expr &p, const expr &q) { return mkfp(c, Z3_mk_fpa_leq(x, p, q)); };
    if (e->op == OF2S && e->w == 64) {
      expr in = leq(fv(-9223372036854775808.0), f) && lt(f, fv(9223372036854775808.0));
      return z3::ite(in, mkfp(c, Z3_mk_fpa_to_sbv(x, rtz, f, 64)), c.bv_val((uint64_t)1 << 63, 64));
    }
    if (e->op == OF2S) {
      expr in = lt(fv(-2147483649.0), f) && lt(f, fv(2147483648.0));
      expr r = z3::ite(in, mkfp(c, Z3_mk_fpa_to_sbv(x, rtz, f, 32)), c.bv_val((uint64_t)0x80000000ull, 32));
      return e->w == 32 ? r : r.extract(e->w - 1, 0);
    }
    // unsigned
    expr in = leq(fv(-9223372036854775808.0), f) && lt(f, fv(9223372036854775808.0));
    expr lo = z3::ite(in, mkfp(c, Z3_mk_fpa_to_sbv(x, rtz, f, 64)), c.bv_val((uint64_t)1 << 63, 64));
    if (e->w < 64) return lo.extract(e->w - 1, 0);
    expr big = leq(fv(9223372036854775808.0), f);
    expr inb = lt(f, fv(18446744073709551616.0));
    expr hi = z3::ite(inb, mkfp(c, Z3_mk_fpa_to_ubv(x, rtz, f, 64)), c.bv_val(0, 64));
    return z3::ite(big, hi, lo);
  }
  case OFUn: {
    if (e->c >= FN_floor && e->c <= FN_rint) {
      Z3_ast rm = e->c == FN_floor ? Z3_mk_fpa_round_toward_negative(x)
                  : e->c == FN_ceil ? Z3_mk_fpa_round_toward_positive(x)
                  : e->c == FN_trunc ? Z3_mk_fpa_round_toward_zero(x)
                  : e->c == FN_round ? Z3_mk_fpa_round_nearest_ties_to_away(x) : Z3_mk_fpa_round_nearest_ties_to_even(x);
      expr rme = mkfp(c, rm);
      return mkfp(c, Z3_mk_fpa_to_ieee_bv(x, mkfp(c, Z3_mk_fpa_round_to_integral(x, rme, fp(e->a, m)))));
    }
    if (e->c == FN_sqrt && m == M_EXACT) {
      expr rm = mkfp(c, Z3_mk_fpa_round_nearest_ties_to_even(x));
      return mkfp(c, Z3_mk_fpa_to_ieee_bv(x, mkfp(c, Z3_mk_fpa_sqrt(x, rm, fp(e->a, m)))));
    }
    return uf(fnName[e->c], {tr(e->a, m)}, c.bv_sort(64));
  }
  case OFBin: return uf(fnName[e->c], {tr(e->a, m), tr(e->b, m)}, c.bv_sort(64));
  default: break;
  }
  fprintf(stderr, "tr0: op %d\n", e->op);
  abort();
}

// ---- real arithmetic (modulo rounding; no NaN/Inf) ----
expr Smt::trInt(E e, bool &ok) {
  // mathematical value of signed bv e, as a real
  switch (e->op) {
  case OConst: return c.real_val((int64_t)sx(e->c, e->w));
  case OSExt: return trInt(e->a, ok);
  case OAdd: if (sbits(e) < e->w) return trInt(e->a, ok) + trInt(e->b, ok); break;
  case OMul: if (sbits(e) < e->w) return trInt(e->a, ok) * trInt(e->b, ok); break;
  default: break;
  }
  auto it = memoI.find(e);
  if (it != memoI.end()) return *it->second;
  expr v = c.real_const(("i!" + std::to_string(e->id)).c_str());
  memoI.emplace(e, new expr(v));
  return v;
}
expr Smt::trReal(E e, bool &ok) {
  auto it = memoR.find(e);
  if (it != memoR.end()) return *it->second;
  expr r(c);
  auto un = [&](const std::string &n) { return c.real_const(n.c_str()); };
  switch (e->op) {
  case OConst: {
    double d = b2d(e->c);
    if (std::isnan(d) || std::isinf(d)) { r = un("k!" + std::to_string(e->id)); break; }
    // exact rational
    int ex; double mnt = frexp(d, &ex);
    int64_t mi = (int64_t)ldexp(mnt, 53); ex -= 53;
    while (mi && (mi & 1) == 0 && ex < 0) { mi /= 2; ex++; }
    std::string num = std::to_string(mi);
    expr base = c.real_val(num.c_str());
    if (ex > 60 || ex < -200) { r = un("k!" + std::to_string(e->id)); break; }
    if (ex >= 0) r = base * c.real_val(std::to_string(1ull << ex).c_str());
    else {
      expr p = c.real_val(1);
      for (int i = 0; i < -ex;) { int s = std::min(60, -ex - i); p = p * c.real_val(std::to_string(1ull << s).c_str()); i += s; }
      r = base / p;
    }
    r = r.simplify();
    break;
  }
  case OVar: r = un("r!" + gVars[e->c].name); break;
  case OFAdd: r = trReal(e->a, ok) + trReal(e->b, ok); break;
  case OFSub: r = trReal(e->a, ok) - trReal(e->b, ok); break;
  case OFMul: r = trReal(e->a, ok) * trReal(e->b, ok); break;
  case OFDiv: {
    expr a = trReal(e->a, ok), b = trReal(e->b, ok);
    if (e->b->op == OConst) { r = a / b; break; }
    // q with q*b == a, b != 0 (division by zero excluded in real mode)
    r = un("q!" + std::to_string(e->id));
    side.push_back(b != 0);
    side.push_back(r * b == a);
    break;
  }
  case OFNeg: r = -trReal(e->a, ok); break;
  case OFAbs: { expr a = trReal(e->a, ok); r = z3::ite(a >= 0, a, -a); break; }
  case OS2F: r = trInt(e->a, ok); break;
  case OIte: { bool k = true; expr cnd = trRealB(e->a, k); if (k) { r = z3::ite(cnd, trReal(e->b, ok), trReal(e->d, ok)); break; } r = un("u!" + std::to_string(e->id)); break; }
  case OFBin:
    if (e->c == FN_pow && isC(e->b)) {
      double p = b2d(e->b->c);
      if (p == std::floor(p) && p >= 0 && p <= 8) {
        expr a = trReal(e->a, ok); r = c.real_val(1);
        for (int i = 0; i < (int)p; i++) r = i == 0 ? a : r * a;
        break;
      }
    }
    r = uf(std::string("R") + fnName[e->c], {trReal(e->a, ok), trReal(e->b, ok)}, c.real_sort());
    break;
  case OFUn:
    r = uf(std::string("R") + fnName[e->c], {trReal(e->a, ok)}, c.real_sort());
    if (e->c == FN_sqrt) { expr a = trReal(e->a, ok); side.push_back(z3::implies(a >= 0, r >= 0 && r * r == a)); }
    break;
  default: r = un("u!" + std::to_string(e->id)); break;
  }
  memoR.emplace(e, new expr(r));
  return r;
}
expr Smt::trRealB(E e, bool &ok) {
  switch (e->op) {
  case OConst: return c.bool_val(e->c != 0);
  case ONot: return !trRealB(e->a, ok);
  case OAnd: return trRealB(e->a, ok) && trRealB(e->b, ok);
  case OOr: return trRealB(e->a, ok) || trRealB(e->b, ok);
  case OFOlt: return trReal(e->a, ok) < trReal(e->b, ok);
  case OFOle: return trReal(e->a, ok) <= trReal(e->b, ok);
  case OFOeq: return trReal(e->a, ok) == trReal(e->b, ok);
  case OFUno: return c.bool_val(false);
  case OSlt: case OSle: {
    expr a = trInt(e->a, ok), b = trInt(e->b, ok);
    return e->op == OSlt ? a < b : a <= b;
  }
  case OEq: if (e->a->w > 1 && e->a->w <= 64 && (sbits(e->a) < 64)) return trInt(e->a, ok) == trInt(e->b, ok); ok = false; return c.bool_val(true);
  default: ok = false; return c.bool_val(true);
  }
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static double ratToDouble(const std::string &s) {
  // forms: "123", "(- 5)", "(/ 1 3)", decimal with '?'
  return atof(s.c_str());
}

Res Smt::check(const std::vector<E> &cs0, Mode m, std::unordered_map<uint32_t, uint64_t> *model, unsigned timeoutMs) {
  std::vector<E> cs;
  for (E e : cs0) { if (isF(e)) return R_UNSAT; if (!isT(e)) cs.push_back(e); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key; key.push_back((char)m);
  for (E e : cs) key.append((const char *)&e->id, 4);
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (model) *model = it->second.second; return it->second.first; }
  st.queries++;
  double t0 = now();
  Res res = R_UNKNOWN;
  std::unordered_map<uint32_t, uint64_t> mv;
  try {
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", timeoutMs);
    s.set(p);
    side.clear();
    memoR.clear();
    if (m == M_REAL) {
      for (E e : cs) { bool ok = true; expr x = trRealB(e, ok); if (ok) s.add(x); }
      for (auto &x : side) s.add(x);
    } else
      for (E e : cs) s.add(boolOf(e, m));
    if (getenv("SYMX_DUMP")) { FILE *f = fopen(getenv("SYMX_DUMP"), "w"); fprintf(f, "%s\n(check-sat)\n", s.to_smt2().c_str()); fclose(f); }
    z3::check_result r = s.check();
    res = r == z3::sat ? R_SAT : r == z3::unsat ? R_UNSAT : R_UNKNOWN;
    if (res == R_SAT && m == M_UF) {
      // Prefer bit patterns of moderate finite doubles in models (same verdict, nicer replays)
    }
    if (res == R_SAT) {
      z3::model md = s.get_model();
      std::vector<uint32_t> vs;
      for (E e : cs) vs.insert(vs.end(), e->vars->begin(), e->vars->end());
      std::sort(vs.begin(), vs.end());
      vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      for (uint32_t v : vs) {
        if (m == M_REAL && gVars[v].kind == VK_Double) {
          expr x = md.eval(c.real_const(("r!" + gVars[v].name).c_str()), true);
          std::string ds = x.is_algebraic() || x.is_real() ? x.get_decimal_string(20) : "0";
          mv[v] = d2b(ratToDouble(ds));
        } else if (m == M_REAL) {
          E ve = gVars[v].e;
          auto f = memoI.find(ve);
          if (f != memoI.end()) {
            expr x = md.eval(*f->second, true);
            mv[v] = (uint64_t)(int64_t)ratToDouble(x.get_decimal_string(20)) & maskw(gVars[v].w);
          }
        } else {
          expr x = md.eval(c.bv_const(gVars[v].name.c_str(), gVars[v].w), true);
          uint64_t val = 0;
          if (x.is_numeral_u64(val)) mv[v] = val;
        }
      }
    }
  } catch (z3::exception &ex) {
    fprintf(stderr, "z3 exception: %s\n", ex.msg());
    res = R_UNKNOWN;
  }
  st.time += now() - t0;
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  cache[key] = {res, mv};
  if (model) *model = mv;
  return res;
}

Res Smt::checkTrivialBatch(const std::vector<E> &cs, const std::vector<std::pair<E, E>> &eqs, unsigned timeoutMs) {
  st.queries++;
  double t0 = now();
  Res res = R_UNKNOWN;
  try {
    z3::solver s(c);
    z3::params p(c);
    p.set("timeout", timeoutMs);
    s.set(p);
    for (E e : cs) s.add(boolOf(e, M_UF));
    std::vector<uint32_t> vs; // declared ranges of the inputs, assumed wherever they are drawn
    for (auto &q : eqs) for (E e : {q.first, q.second}) vs.insert(vs.end(), e->vars->begin(), e->vars->end());
    std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    for (uint32_t v : vs) if (gVars[v].sb < gVars[v].w) {
      E lo = mkConst(~0ull << (gVars[v].sb - 1), gVars[v].w), hi = mkConst((1ull << (gVars[v].sb - 1)) - 1, gVars[v].w);
      s.add(boolOf(mkBin(OSle, lo, gVars[v].e), M_UF)); s.add(boolOf(mkBin(OSle, gVars[v].e, hi), M_UF));
    }
    z3::expr_vector bad(c);
    for (auto &q : eqs) bad.push_back(!(tr(q.first, M_UF) == tr(q.second, M_UF)));
    s.add(z3::mk_or(bad));
    z3::check_result r = s.check();
    res = r == z3::sat ? R_SAT : r == z3::unsat ? R_UNSAT : R_UNKNOWN;
  } catch (z3::exception &ex) { res = R_UNKNOWN; }
  st.time += now() - t0;
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  return res;
}
