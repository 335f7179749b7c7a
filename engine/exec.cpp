#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace llvm;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string Exec::dem(const std::string &n) {
  auto it = demangled.find(n);
  if (it != demangled.end()) return it->second;
  return demangled[n] = llvm::demangle(n);
}
bool Exec::timeUp() { return now() - t0 > opt.maxTime; }

Exec::Exec(Module &m, Options o) : M(m), DL(m.getDataLayout()), opt(o) {
  registerHandlers();
  initGlobals();
}

// ------------------------------------------------------------------ globals
unsigned Exec::bitsOf(Type *T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  return 0;
}
uint64_t Exec::idOfGlobal(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G)) return idOfGlobal(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
  auto it = gid.find(G);
  if (it != gid.end()) return it->second;
  uint64_t id = nextId++;
  gid[G] = id;
  nameById[id] = G->getName().str();
  if (auto *F = dyn_cast<Function>(G)) {
    funcById[id] = F;
    kindById[id] = K_Func;
    return id;
  }
  auto *V = cast<GlobalVariable>(G);
  auto o = std::make_shared<MemObj>();
  o->id = id;
  o->kind = K_Global;
  kindById[id] = K_Global;
  uint64_t sz = V->getValueType()->isSized() ? typeSize(V->getValueType()) : 64;
  if (!V->hasInitializer() && sz < 512) sz = 512;
  o->size = sz;
  o->ro = V->isConstant() && V->hasInitializer();
  o->b.assign(sz, BRef{mkConst(0, 8), 0});
  gmem[id] = o;
  return id;
}
void Exec::initGlobalBytes(MemObj &o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = typeSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements(); i++) initGlobalBytes(o, off + i * es, A->getElementAsConstant(i));
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL.getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobalBytes(o, off + L->getElementOffset(i), S->getOperand(i));
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = typeSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobalBytes(o, off + i * es, A->getOperand(i));
    return;
  }
  Val v = constVal(C);
  if (!v.e) return;
  E e = v.e;
  unsigned n = DL.getTypeStoreSize(T).getFixedValue();
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  writeAt(o, off, e);
}
void Exec::initGlobals() {
  for (auto &G : M.globals()) idOfGlobal(&G);
  // fake vtable for library exception classes
  {
    fakeVtable = nextId++;
    nopFn = nextId++;
    whatFn = nextId++;
    kindById[nopFn] = kindById[whatFn] = K_Func;
    nameById[nopFn] = "symx.nop";
    nameById[whatFn] = "symx.what";
    auto o = std::make_shared<MemObj>();
    o->id = fakeVtable; o->kind = K_Global; o->size = 24; o->ro = true;
    o->b.assign(24, BRef{mkConst(0, 8), 0});
    writeAt(*o, 0, mkConst(baseOf(nopFn), 64));
    writeAt(*o, 8, mkConst(baseOf(nopFn), 64));
    writeAt(*o, 16, mkConst(baseOf(whatFn), 64));
    kindById[fakeVtable] = K_Global;
    gmem[fakeVtable] = o;
  }
  for (auto &G : M.globals())
    if (G.hasInitializer()) initGlobalBytes(*gmem[idOfGlobal(&G)], 0, G.getInitializer());
}

Val Exec::constVal(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() > 64) return Val(mkConst(I->getValue().getLoBits(64).getZExtValue(), 64));
    return Val(mkConst(I->getZExtValue(), I->getBitWidth()));
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt a = F->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() > 64) return Val();
    return Val(mkConst(a.getZExtValue(), a.getBitWidth()));
  }
  if (isa<ConstantPointerNull>(C)) return Val(mkConst(0, 64));
  if (auto *G = dyn_cast<GlobalValue>(C)) return Val(mkConst(baseOf(idOfGlobal(G)), 64));
  if (isa<UndefValue>(C)) return Val();
  if (isa<ConstantAggregateZero>(C) || isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
    unsigned n = 0;
    Type *T = C->getType();
    if (auto *S = dyn_cast<StructType>(T)) n = S->getNumElements();
    else if (auto *A = dyn_cast<ArrayType>(T)) n = A->getNumElements();
    Val v;
    v.agg = std::make_shared<std::vector<Val>>(n);
    for (unsigned i = 0; i < n; i++) (*v.agg)[i] = constVal(C->getAggregateElement(i));
    return v;
  }
  if (auto *X = dyn_cast<ConstantExpr>(C)) {
    switch (X->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      cast<GEPOperator>(X)->accumulateConstantOffset(DL, off);
      Val b = constVal(X->getOperand(0));
      return Val(mkBin(OAdd, b.e, mkConst(off.getZExtValue(), 64)));
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Val b = constVal(X->getOperand(0));
      unsigned w = bitsOf(X->getType());
      if (w < b.e->w) return Val(mkExtract(b.e, 0, w));
      return Val(mkZExt(b.e, w));
    }
    case Instruction::Sub: return Val(mkBin(OSub, constVal(X->getOperand(0)).e, constVal(X->getOperand(1)).e));
    case Instruction::Add: return Val(mkBin(OAdd, constVal(X->getOperand(0)).e, constVal(X->getOperand(1)).e));
    case Instruction::Trunc: return Val(mkExtract(constVal(X->getOperand(0)).e, 0, bitsOf(X->getType())));
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  fprintf(stderr, "constVal: unsupported constant %s\n", s.c_str());
  return Val();
}

// ---------------------------------------------------------------- functions
KOp Exec::kop(KFunc &k, std::unordered_map<const Value *, int> &slots, const Value *v) {
  KOp o;
  if (auto *C = dyn_cast<Constant>(v)) {
    o.v = constVal(C);
    if (!o.v.e && !o.v.agg) o.undef = true;
    return o;
  }
  auto it = slots.find(v);
  if (it != slots.end()) { o.slot = it->second; return o; }
  o.undef = true;
  return o;
}
KFunc *Exec::kf(const Function *F) {
  auto it = kfs.find(F);
  if (it != kfs.end()) return it->second.get();
  auto k = std::make_unique<KFunc>();
  k->F = F;
  k->dname = dem(F->getName().str());
  std::unordered_map<const Value *, int> slots;
  unsigned n = 0;
  for (auto &A : F->args()) slots[&A] = n++;
  int bi = 0;
  for (auto &B : *F) {
    k->bbi[&B] = bi++;
    for (auto &I : B) if (!I.getType()->isVoidTy()) slots[&I] = n++;
  }
  k->nslots = n;
  for (auto &B : *F) {
    KBlock kb;
    unsigned ii = 0;
    bool seen = false;
    for (auto &I : B) {
      KInst ki;
      ki.I = &I;
      auto s = slots.find(&I);
      ki.slot = s == slots.end() ? -1 : s->second;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (auto &A : CB->args()) {
          if (A->getType()->isMetadataTy()) { KOp o; o.undef = true; ki.ops.push_back(o); continue; }
          ki.ops.push_back(kop(*k, slots, A));
        }
        ki.ops.push_back(kop(*k, slots, CB->getCalledOperand()));
        const Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
        ki.direct = dyn_cast<Function>(cv);
      } else
        for (unsigned j = 0; j < I.getNumOperands(); j++) ki.ops.push_back(kop(*k, slots, I.getOperand(j)));
      if (!isa<PHINode>(&I) && !seen) { seen = true; kb.firstNonPhi = ii; }
      kb.ins.push_back(std::move(ki));
      ii++;
    }
    k->bb.push_back(std::move(kb));
  }
  k->bbHit.assign(k->bb.size(), false);
  auto *r = k.get();
  kfs[F] = std::move(k);
  return r;
}

Val Exec::freshUndef(Type *T) {
  unsigned w = bitsOf(T);
  if (w) return Val(mkVar("undef!" + std::to_string(uninitN++), w, VK_Uninit));
  Val v;
  unsigned n = 0;
  if (auto *S = dyn_cast<StructType>(T)) n = S->getNumElements();
  else if (auto *A = dyn_cast<ArrayType>(T)) n = A->getNumElements();
  v.agg = std::make_shared<std::vector<Val>>(n);
  return v;
}
E Exec::canon(State &s, E e) {
  if (!e || (s.subst.empty() && s.tsub.empty()) || e->vars->empty()) return e;
  bool hit = false;
  for (uint32_t v : *e->vars) if (s.subst.count(v) || s.tsubVars.count(v)) { hit = true; break; }
  if (!hit) return e;
  return rewriteVars(e, s.subst, *s.substMemo);
}
Val Exec::get(State &s, const KInst &ki, unsigned i) {
  const KOp &o = ki.ops[i];
  if (o.undef) {
    const CallBase *cb = dyn_cast<CallBase>(ki.I);
    Type *T = cb ? (i < cb->arg_size() ? cb->getArgOperand(i)->getType() : cb->getCalledOperand()->getType()) : ki.I->getOperand(i)->getType();
    return freshUndef(T);
  }
  if (o.slot < 0) return o.v;
  Val &v = s.st.back().loc[o.slot];
  if (!v.e && !v.agg) {
    const CallBase *cb = dyn_cast<CallBase>(ki.I);
    Type *T = cb ? (i < cb->arg_size() ? cb->getArgOperand(i)->getType() : cb->getCalledOperand()->getType()) : ki.I->getOperand(i)->getType();
    v = freshUndef(T);
  }
  if (v.e && v.e->op != OConst) { E c = canon(s, v.e); if (c != v.e) v.e = c; }
  return v;
}
E Exec::getE(State &s, const KInst &ki, unsigned i) { return get(s, ki, i).e; }
void Exec::setLoc(State &s, const KInst &ki, Val v) { if (ki.slot >= 0) s.st.back().loc[ki.slot] = std::move(v); }

// ------------------------------------------------------------ constraints
void Exec::slice(State &s, E extra, std::vector<E> &out) {
  // constraints transitively sharing variables with extra
  std::set<uint32_t> vs(extra->vars->begin(), extra->vars->end());
  std::vector<char> used(s.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (used[i]) continue;
      for (uint32_t v : *s.pc[i]->vars)
        if (vs.count(v)) {
          used[i] = 1; ch = true;
          vs.insert(s.pc[i]->vars->begin(), s.pc[i]->vars->end());
          out.push_back(s.pc[i]);
          break;
        }
    }
  }
  out.push_back(extra);
}
bool Exec::feasible(State &s, E c, std::unordered_map<uint32_t, uint64_t> *m, bool *gen) {
  if (isF(c)) return false;
  if (isT(c)) { if (m) m->clear(); return true; }
  std::vector<E> cs;
  slice(s, c, cs);
  smt.st.pcQueries++;
  std::unordered_map<uint32_t, uint64_t> mm;
  Res r = smt.check(cs, M_UF, &mm, opt.branchTimeout);
  if (r == R_UNSAT) return false;
  if (m) *m = mm;
  if (gen) {
    *gen = r == R_SAT;
    if (r == R_SAT) {
      Model t; t.vals = mm;
      for (E e : cs) if (!t.eval(e)) { *gen = false; break; }
    }
  }
  return true;
}
void Exec::addPC(State &s, E c) {
  if (isT(c)) return;
  if (c->op == OAnd && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  if (!s.pcset.insert(c).second) return;
  s.pc.push_back(c);
  learn(s, c, true);
  if (c->op == OEq && isC(c->b) && c->a->op == OVar && gVars[c->a->c].kind != VK_Double) {
    s.subst[(uint32_t)c->a->c] = c->b;
    s.resetMemo();
  } else if (c->op == OEq && isC(c->b) && (c->a->op == OF2S || c->a->op == OF2U)) {
    // the truncation of x is known: so is every other conversion of x to a type that holds it
    E t = c->a; int64_t k = sx(c->b->c, t->w); bool in = t->op == OF2S && k > -(1ll << (t->w - 1)) && k < (1ll << 31) - 1;
    s.tsub[t] = c->b;
    if (in) {
      if (k > -(1ll << 31)) s.tsub[mkF2S(t->a, 32)] = mkConst((uint64_t)k, 32);
      s.tsub[mkF2S(t->a, 64)] = mkConst((uint64_t)k, 64);
      if (k >= 0) { s.tsub[mkF2U(t->a, 64)] = mkConst((uint64_t)k, 64); s.tsub[mkF2U(t->a, 32)] = mkConst((uint64_t)k, 32); }
    }
    for (uint32_t v : *t->vars) s.tsubVars.insert(v);
    s.resetMemo();
  }
}
// ---- interval reasoning over integer expressions
static inline Iv fullIv(unsigned w) { return w >= 64 ? Iv{INT64_MIN, INT64_MAX} : Iv{-(1ll << (w - 1)), (1ll << (w - 1)) - 1}; }
static bool fitIv(__int128 lo, __int128 hi, unsigned w, Iv &r) {
  Iv f = fullIv(w);
  if (lo < f.lo || hi > f.hi) return false;
  r = {(int64_t)lo, (int64_t)hi};
  return true;
}
bool Exec::iv(State &s, E e, Iv &r, int depth) {
  unsigned w = e->w;
  if (isC(e)) { r.lo = r.hi = sx(e->c, w); return true; }
  r = fullIv(w);
  if (depth > 12 || w == 1) return true;
  Iv a, b, t = r;
  switch (e->op) {
  case OAdd: if (iv(s, e->a, a, depth + 1) && iv(s, e->b, b, depth + 1)) fitIv((__int128)a.lo + b.lo, (__int128)a.hi + b.hi, w, t); break;
  case OSub: if (iv(s, e->a, a, depth + 1) && iv(s, e->b, b, depth + 1)) fitIv((__int128)a.lo - b.hi, (__int128)a.hi - b.lo, w, t); break;
  case OMul:
    if (isC(e->b) && iv(s, e->a, a, depth + 1)) {
      __int128 k = sx(e->b->c, w), x = k * a.lo, y = k * a.hi;
      fitIv(x < y ? x : y, x < y ? y : x, w, t);
    }
    break;
  case OShl:
    if (isC(e->b) && e->b->c < 62 && iv(s, e->a, a, depth + 1)) fitIv((__int128)a.lo << e->b->c, (__int128)a.hi << e->b->c, w, t);
    break;
  case OSExt: iv(s, e->a, t, depth + 1); break;
  case OZExt:
    iv(s, e->a, a, depth + 1);
    if (a.lo >= 0) t = a; else t = {0, (int64_t)maskw(e->a->w)};
    break;
  case OExtract:
    if (e->c == 0) { iv(s, e->a, a, depth + 1); fitIv(a.lo, a.hi, w, t); }
    break;
  case OConcat: {
    iv(s, e->a, a, depth + 1);
    unsigned wl = e->b->w;
    if (isC(e->b)) fitIv(((__int128)a.lo << wl) + e->b->c, ((__int128)a.hi << wl) + e->b->c, w, t);
    else fitIv((__int128)a.lo << wl, ((__int128)a.hi << wl) + maskw(wl), w, t);
    break; }
  case OIte: iv(s, e->b, a, depth + 1); iv(s, e->d, b, depth + 1); t = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break;
  case OAnd: if (isC(e->b) && sx(e->b->c, w) >= 0) t = {0, sx(e->b->c, w)}; break;
  case OURem: if (isC(e->b) && sx(e->b->c, w) > 0) { t = {0, sx(e->b->c, w) - 1}; iv(s, e->a, a, depth + 1); if (a.lo >= 0 && a.hi < t.hi) t = a; } break;
  case OSRem: if (isC(e->b) && sx(e->b->c, w) > 0) { int64_t k = sx(e->b->c, w); iv(s, e->a, a, depth + 1); t = {a.lo >= 0 ? 0 : -(k - 1), a.hi <= 0 ? 0 : k - 1}; } break;
  case OSDiv: case OUDiv:
    if (isC(e->b) && sx(e->b->c, w) > 0) { iv(s, e->a, a, depth + 1); int64_t k = sx(e->b->c, w); if (e->op == OSDiv || a.lo >= 0) t = {a.lo / k, a.hi / k}; }
    break;
  case OLShr: case OAShr:
    if (isC(e->b) && e->b->c < w) { iv(s, e->a, a, depth + 1); if (a.lo >= 0) t = {a.lo >> e->b->c, a.hi >> e->b->c}; }
    break;
  default: break;
  }
  r = t;
  auto it = s.rng.find(e);
  if (it != s.rng.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
  return true;
}
void Exec::learn(State &s, E c, bool pos) {
  if (c->op == ONot) { learn(s, c->a, !pos); return; }
  std::function<void(E, int64_t, int64_t)> upd = [&](E e, int64_t lo, int64_t hi) {
    if (isC(e) || e->w == 1) return;
    Iv x;
    if (e->op == OSExt) { upd(e->a, lo, hi); return; }
    if (e->op == OZExt) { iv(s, e->a, x); if (x.lo >= 0) { upd(e->a, lo, hi); return; } }
    if (e->op == OAdd && isC(e->b)) {
      int64_t k = sx(e->b->c, e->w);
      Iv t;
      iv(s, e->a, x);
      if (fitIv((__int128)x.lo + k, (__int128)x.hi + k, e->w, t)) {
        __int128 l = (__int128)lo - k, h = (__int128)hi - k;
        upd(e->a, l < INT64_MIN ? INT64_MIN : (int64_t)l, h > INT64_MAX ? INT64_MAX : (int64_t)h);
      }
    }
    auto it = s.rng.find(e);
    if (it == s.rng.end()) s.rng[e] = {lo, hi};
    else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); }
  };
  if (c->op == OSle || c->op == OSlt) {
    E a = c->a, b = c->b;
    bool strict = c->op == OSlt;
    if (!pos) { std::swap(a, b); strict = !strict; } // !(a<=b): b<a
    Iv x, y;
    iv(s, a, x); iv(s, b, y);
    Iv f = fullIv(a->w);
    if (strict && (y.hi == f.lo || x.lo == f.hi)) return;
    upd(a, f.lo, strict ? y.hi - 1 : y.hi);
    upd(b, strict ? x.lo + 1 : x.lo, f.hi);
  } else if (c->op == OUle || c->op == OUlt) {
    E a = c->a, b = c->b;
    bool strict = c->op == OUlt;
    if (!pos) { std::swap(a, b); strict = !strict; }
    Iv x, y;
    iv(s, a, x); iv(s, b, y);
    Iv f = fullIv(a->w);
    // a <=u b with b nonnegative as a signed number: 0 <= a <= b
    if (y.lo >= 0 && y.hi >= 0 && !(strict && y.hi == 0)) { upd(a, 0, strict ? y.hi - 1 : y.hi); if (x.lo >= 0) upd(b, strict ? x.lo + 1 : x.lo, f.hi); }
  } else if (c->op == OEq && pos && c->a->w > 1) {
    Iv x, y;
    iv(s, c->a, x); iv(s, c->b, y);
    upd(c->a, y.lo, y.hi); upd(c->b, x.lo, x.hi);
  } else if (c->op == OEq && !pos && c->a->w > 1 && isC(c->b)) { // not an end of the range
    Iv x; iv(s, c->a, x); int64_t k = sx(c->b->c, c->b->w);
    if (x.lo < x.hi) { if (k == x.lo) upd(c->a, x.lo + 1, x.hi); else if (k == x.hi) upd(c->a, x.lo, x.hi - 1); }
  }
}
int Exec::ivDecide(State &s, E c) {
  if (c->op == ONot) { int r = ivDecide(s, c->a); return r < 0 ? r : 1 - r; }
  if (c->w != 1) return -1;
  if (c->op == OAnd || c->op == OOr) {
    int a = ivDecide(s, c->a), b = ivDecide(s, c->b);
    if (c->op == OAnd) return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1;
    return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1;
  }
  if (c->op != OSle && c->op != OSlt && c->op != OUle && c->op != OUlt && c->op != OEq) return isC(c) ? (int)c->c : -1;
  if (c->a->w == 1) return -1;
  Iv a, b;
  iv(s, c->a, a); iv(s, c->b, b);
  if (c->op == OUle || c->op == OUlt) {
    if (a.lo < 0 && a.hi >= 0) return -1;
    if (b.lo < 0 && b.hi >= 0) return -1;
    if (a.lo < 0 && b.lo >= 0) return 0;
    if (a.lo >= 0 && b.lo < 0) return 1;
  }
  switch (c->op) {
  case OSle: case OUle: return a.hi <= b.lo ? 1 : a.lo > b.hi ? 0 : -1;
  case OSlt: case OUlt: return a.hi < b.lo ? 1 : a.lo >= b.hi ? 0 : -1;
  default: return a.hi < b.lo || b.hi < a.lo ? 0 : a.lo == a.hi && b.lo == b.hi && a.lo == b.lo ? 1 : -1;
  }
}
State *Exec::fork(State &s) {
  State *n = new State(s);
  n->depth++;
  st.forks++;
  if (n->substMemo) n->resetMemo();
  return n;
}
static std::shared_ptr<Model> overlay(const std::shared_ptr<Model> &b, const std::unordered_map<uint32_t, uint64_t> &m) {
  auto r = std::make_shared<Model>();
  if (b) r->vals = b->vals;
  for (auto &p : m) r->vals[p.first] = p.second;
  return r;
}
// Decide a boolean in the current state, forking when both outcomes are feasible.
int Exec::decide(State &s, E c) {
  c = canon(s, c);
  if (isC(c)) return c->c ? 1 : 0;
  E nc = mkNot(c);
  if (s.pcset.count(c)) return 1;
  if (s.pcset.count(nc)) return 0;
  { int q = ivDecide(s, c); if (q >= 0) return q; }
  st.branches++;
  std::unordered_map<uint32_t, uint64_t> m1, m0;
  bool g1 = false, g0 = false, f1, f0, k1 = false, k0 = false;
  if (s.genuine && s.model) {
    if (s.model->eval(c)) k1 = true; else k0 = true;
  }
  f1 = k1 || feasible(s, c, &m1, &g1);
  f0 = k0 || feasible(s, nc, &m0, &g0);
  if (!f1 && !f0) { alive = false; st.infeasible++; return -1; }
  auto setM = [&](State &x, bool known, std::unordered_map<uint32_t, uint64_t> &m, bool g) {
    if (known) return;
    bool base = x.genuine;
    x.model = overlay(x.model, m);
    x.genuine = base && g;
  };
  if (f1 && f0) {
    State *n = fork(s);
    addPC(*n, nc);
    setM(*n, k0, m0, g0);
    n->concForks = s.concForks;
    // the forked state re-executes the same instruction with the opposite constraint
    work.push_back(n);
    addPC(s, c);
    setM(s, k1, m1, g1);
    return 1;
  }
  if (f1) { if (!k1) setM(s, false, m1, g1); addPC(s, c); return 1; }
  if (!k0) setM(s, false, m0, g0);
  addPC(s, nc);
  return 0;
}
bool Exec::concretize(State &s, E e, uint64_t &out, const char *why) {
  e = canon(s, e);
  if (isC(e)) { out = e->c; return true; }
  // candidate value
  uint64_t v;
  std::unordered_map<uint32_t, uint64_t> m;
  bool g = false;
  if (s.genuine && s.model) v = s.model->eval(e);
  else {
    if (!feasible(s, mkTrue(), &m, &g)) {}
    std::vector<E> cs;
    // any model of the slice
    E t = mkBin(OEq, e, e->w == 1 ? mkConst(0, 1) : e);
    (void)t;
    std::vector<E> sl;
    slice(s, e, sl);
    sl.pop_back();
    Res r = smt.check(sl, M_UF, &m, opt.branchTimeout);
    if (r == R_UNSAT) { alive = false; st.infeasible++; return false; }
    if (s.concForks[where(s)] > 0) { // a value of the model without arithmetic was not feasible
      std::unordered_map<uint32_t, uint64_t> mx;
      r = smt.check(sl, M_EXACT, &mx, 5000);
      if (r == R_UNSAT) { alive = false; st.infeasible++; return false; }
      if (r == R_SAT) m = mx;
    }
    Model md; md.vals = m;
    if (s.model) for (auto &p : s.model->vals) md.vals.emplace(p.first, p.second);
    v = md.eval(e);
  }
  std::string key = where(s);
  if (s.concForks[key]++ > 300) { st.concCap++; unsupported(s, "too many values of an address or size"); return false; }
  E c = mkBin(OEq, e, mkConst(v, e->w));
  int d = decide(s, c);
  if (!alive) return false;
  if (d == 0) return concretize(s, e, out, why); // value was not feasible (UF-only model)
  out = v;
  // try to pin single variables
  if (e->vars->size() == 1) {
    uint32_t var = (*e->vars)[0];
    if (gVars[var].kind != VK_Double && !s.subst.count(var)) {
      E ve = gVars[var].e;
      uint64_t cur = s.genuine && s.model ? s.model->eval(ve) : 0;
      if (s.genuine && s.model) {
        E q = mkBin(OEq, ve, mkConst(cur, ve->w));
        if (!feasible(s, mkNot(q), nullptr, nullptr)) {
          s.subst[var] = mkConst(cur, ve->w);
          s.resetMemo();
        }
      }
    }
  }
  return true;
}

// ------------------------------------------------------------------ memory
uint64_t Exec::allocObj(State &s, uint64_t size, OKind k, const std::string &name, bool zero) {
  auto o = std::make_shared<MemObj>();
  o->id = nextId++;
  o->size = size;
  o->kind = k;
  o->b.assign(size, BRef{zero ? mkConst(0, 8) : nullptr, 0});
  s.mem[o->id] = o;
  kindById[o->id] = k;
  if (!name.empty()) nameById[o->id] = name;
  st.objects++;
  return o->id;
}
std::shared_ptr<MemObj> *Exec::find(State &s, uint64_t id, bool write) {
  auto it = s.mem.find(id);
  if (it == s.mem.end()) {
    auto g = gmem.find(id);
    if (g == gmem.end()) return nullptr;
    if (!write) return &g->second;
    auto c = std::make_shared<MemObj>(*g->second);
    s.mem[id] = c;
    return &s.mem[id];
  }
  if (write && it->second.use_count() > 1) it->second = std::make_shared<MemObj>(*it->second);
  return &it->second;
}
static const char *kname(OKind k) {
  switch (k) {
  case K_Global: return "global"; case K_Stack: return "stack"; case K_New: return "heap(new)"; case K_NewArr: return "heap(new[])";
  case K_Malloc: return "heap(malloc)"; case K_Exc: return "exception"; case K_Func: return "function";
  }
  return "?";
}
Exec::RR Exec::resolve(State &s, E addr, unsigned n, bool write, uint64_t &id, E &off, const char *what) {
  addr = canon(s, addr);
  st.memChecks++;
  if (!isC(addr)) {
    // structural base
    uint64_t base = 0;
    if (addr->op == OAdd && isC(addr->b)) base = addr->b->c;
    id = base >> SLOT_SHIFT;
    auto o = base ? find(s, id, false) : nullptr;
    if (!o) {
      uint64_t v;
      if (!concretize(s, addr, v, "pointer")) return RR_DEAD;
      addr = mkConst(v, 64);
    } else {
      uint64_t sz = (*o)->size;
      off = mkBin(OSub, addr, mkConst(baseOf(id), 64));
      if (sz < n) { error(s, write ? "oob-write" : "oob-read", std::string("out of bounds ") + what); return RR_DEAD; }
      E in = mkBin(OUle, off, mkConst(sz - n, 64));
      std::unordered_map<uint32_t, uint64_t> m; bool g;
      E bad = mkNot(in);
      if (!isF(bad) && ivDecide(s, bad) != 0 && feasible(s, bad, &m, &g)) {
        error(s, write ? "oob-write" : "oob-read", std::string("out of bounds ") + what + " (symbolic offset, object " + kname((*o)->kind) + " of " + std::to_string(sz) + " bytes)", bad);
        // continue with in-bounds part
        int d = decide(s, in);
        if (!alive) return RR_DEAD;
        if (d == 0) { alive = false; return RR_DEAD; }
        // decide() pushed the out-of-bounds twin: drop it (already reported)
        if (!work.empty() && work.back()->pcset.count(bad)) { delete work.back(); work.pop_back(); st.forks--; }
      }
      if ((*find(s, id, false))->dead) { error(s, "use-after-scope", std::string("dead stack object ") + what); return RR_DEAD; }
      return RR_OK;
    }
  }
  uint64_t a = addr->c;
  id = a >> SLOT_SHIFT;
  if (id < 16) { error(s, "null-deref", std::string("null/invalid pointer ") + what); return RR_DEAD; }
  auto o = find(s, id, false);
  if (!o) {
    auto k = kindById.find(id);
    if (k == kindById.end()) error(s, "wild-pointer", std::string("wild pointer ") + what);
    else if (k->second == K_Func) error(s, "wild-pointer", std::string("data access to function ") + what);
    else if (k->second == K_Stack) error(s, "use-after-return", std::string("dangling stack ") + what);
    else error(s, "use-after-free", std::string("freed ") + kname(k->second) + " " + what);
    return RR_DEAD;
  }
  uint64_t of = a - baseOf(id);
  if (of > (*o)->size || of + n > (*o)->size) {
    error(s, write ? "oob-write" : "oob-read", std::string("out of bounds ") + what + " at offset " + std::to_string((int64_t)of) + " of " + kname((*o)->kind) + " object of " + std::to_string((*o)->size) + " bytes");
    return RR_DEAD;
  }
  if ((*o)->dead) { error(s, "use-after-scope", std::string("dead stack object ") + what); return RR_DEAD; }
  if (write && (*o)->ro) { error(s, "write-readonly", "write to constant"); return RR_DEAD; }
  off = mkConst(of, 64);
  return RR_OK;
}
void Exec::writeAt(MemObj &o, uint64_t off, E v) {
  unsigned n = v->w / 8;
  for (unsigned i = 0; i < n; i++) o.b[off + i] = BRef{v, (uint8_t)i};
}
E Exec::readAt(State &s, MemObj &o, uint64_t off, unsigned n) {
  BRef f = o.b[off];
  if (f.e && f.i == 0 && f.e->w == n * 8) {
    bool all = true;
    for (unsigned i = 1; i < n; i++) if (o.b[off + i].e != f.e || o.b[off + i].i != i) { all = false; break; }
    if (all) return canon(s, f.e);
  }
  bool anyU = false, allU = true;
  for (unsigned i = 0; i < n; i++) { if (!o.b[off + i].e) anyU = true; else allU = false; }
  if (anyU) {
    if (allU) {
      E v = mkVar("uninit!" + std::to_string(uninitN++), n * 8, VK_Uninit);
      writeAt(o, off, v);
      return v;
    }
    for (unsigned i = 0; i < n; i++) if (!o.b[off + i].e) o.b[off + i] = BRef{mkVar("uninit!" + std::to_string(uninitN++), 8, VK_Uninit), 0};
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    BRef &q = o.b[off + i];
    E by = q.e->w == 8 ? q.e : mkExtract(q.e, q.i * 8, 8);
    r = r ? mkConcat(by, r) : by;
  }
  return canon(s, r);
}
bool Exec::load(State &s, E addr, unsigned bits, E &out) {
  unsigned n = (bits + 7) / 8;
  uint64_t id; E off;
  RR r = resolve(s, addr, n, false, id, off, "read");
  if (r != RR_OK) return false;
  E v;
  auto *po = find(s, id, false);
  if (isC(off)) {
    // reading uninitialised bytes materialises them
    bool anyU = false;
    for (unsigned i = 0; i < n; i++) if (!(*po)->b[off->c + i].e) anyU = true;
    if (anyU) po = find(s, id, true);
    v = readAt(s, **po, off->c, n);
  } else {
    st.symReads++;
    unsigned step = 1;
    unsigned tz = knownTZ(off);
    if (tz > 6) tz = 6;
    step = 1u << tz;
    if (step < n) { // unaligned possible: enumerate
      uint64_t v0;
      if (!concretize(s, off, v0, "offset")) return false;
      bool anyU = false;
      for (unsigned i = 0; i < n; i++) if (!(*po)->b[v0 + i].e) anyU = true;
      po = find(s, id, anyU);
      v = readAt(s, **po, v0, n);
    } else {
      uint64_t last = (*po)->size - n;
      uint64_t k0 = 0;
      { Iv q; iv(s, off, q); if (q.lo > 0) k0 = ((uint64_t)q.lo + step - 1) / step * step; if (q.hi >= 0 && (uint64_t)q.hi < last) last = q.hi; if (k0 > last) { k0 = 0; last = (*po)->size - n; } }
      bool anyU = false;
      for (uint64_t k = k0; k < last + n; k++) if (!(*po)->b[k].e) anyU = true;
      if (anyU) po = find(s, id, true);
      bool first = true;
      for (uint64_t k = k0; k <= last; k += step, first = false) {
        E x = readAt(s, **po, k, n);
        v = first ? x : mkIte(mkBin(OEq, off, mkConst(k, 64)), x, v);
      }
    }
  }
  if (v->w > bits) v = mkExtract(v, 0, bits);
  out = v;
  return true;
}
bool Exec::store(State &s, E addr, E v) {
  unsigned n = (v->w + 7) / 8;
  if (v->w < n * 8) v = mkZExt(v, n * 8);
  uint64_t id; E off;
  RR r = resolve(s, addr, n, true, id, off, "write");
  if (r != RR_OK) return false;
  auto *po = find(s, id, true);
  if (isC(off)) { writeAt(**po, off->c, v); return true; }
  st.symWrites++;
  unsigned tz = std::min(6u, knownTZ(off));
  unsigned step = 1u << tz;
  if (step < n) {
    uint64_t v0;
    if (!concretize(s, off, v0, "offset")) return false;
    po = find(s, id, true);
    writeAt(**po, v0, v);
    return true;
  }
  uint64_t last = (*po)->size - n;
  uint64_t k0 = 0;
  { Iv q; iv(s, off, q); if (q.lo > 0) k0 = ((uint64_t)q.lo + step - 1) / step * step; if (q.hi >= 0 && (uint64_t)q.hi < last) last = q.hi; }
  for (uint64_t k = k0; k <= last; k += step) {
    E x = readAt(s, **po, k, n);
    writeAt(**po, k, mkIte(mkBin(OEq, off, mkConst(k, 64)), v, x));
  }
  return true;
}
Val Exec::loadTy(State &s, E addr, Type *T, bool &ok) {
  unsigned w = bitsOf(T);
  ok = true;
  if (w && w <= 64) { E o; ok = load(s, addr, w, o); return Val(o); }
  Val v;
  v.agg = std::make_shared<std::vector<Val>>();
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *L = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements() && ok; i++) v.agg->push_back(loadTy(s, mkBin(OAdd, addr, mkConst(L->getElementOffset(i), 64)), S->getElementType(i), ok));
    return v;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = typeSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements() && ok; i++) v.agg->push_back(loadTy(s, mkBin(OAdd, addr, mkConst(i * es, 64)), A->getElementType(), ok));
    return v;
  }
  unsupported(s, "load type");
  ok = false;
  return v;
}
bool Exec::storeTy(State &s, E addr, Type *T, Val v) {
  unsigned w = bitsOf(T);
  if (w && w <= 64) {
    if (!v.e) v = freshUndef(T);
    return store(s, addr, v.e);
  }
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *L = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      if (!storeTy(s, mkBin(OAdd, addr, mkConst(L->getElementOffset(i), 64)), S->getElementType(i), (*v.agg)[i])) return false;
    return true;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    uint64_t es = typeSize(A->getElementType());
    for (unsigned i = 0; i < A->getNumElements(); i++)
      if (!storeTy(s, mkBin(OAdd, addr, mkConst(i * es, 64)), A->getElementType(), (*v.agg)[i])) return false;
    return true;
  }
  unsupported(s, "store type");
  return false;
}
std::string Exec::readCStr(State &s, E p, bool &ok) {
  std::string r;
  ok = true;
  p = canon(s, p);
  if (!isC(p)) { ok = false; return r; }
  uint64_t id = p->c >> SLOT_SHIFT;
  auto o = find(s, id, false);
  if (!o) { ok = false; return r; }
  for (uint64_t i = p->c - baseOf(id); i < (*o)->size; i++) {
    if (!(*o)->b[i].e) { ok = false; return r; }
    E c = readAt(s, **o, i, 1);
    if (!isC(c)) { r += '?'; continue; }
    if (c->c == 0) return r;
    r += (char)c->c;
  }
  ok = false;
  return r;
}
bool Exec::doFree(State &s, E p, OKind expect, const char *fn) {
  uint64_t a;
  if (!concretize(s, p, a, "free")) return false;
  if (a == 0) return true;
  uint64_t id = a >> SLOT_SHIFT;
  auto o = find(s, id, false);
  if (!o) {
    auto k = kindById.find(id);
    if (k != kindById.end() && k->second != K_Func) error(s, "double-free", std::string(fn) + " of already freed object");
    else error(s, "invalid-free", std::string(fn) + " of invalid pointer");
    return false;
  }
  if (a != baseOf(id)) { error(s, "invalid-free", std::string(fn) + " of interior pointer"); return false; }
  OKind k = (*o)->kind;
  if (k != K_New && k != K_NewArr && k != K_Malloc) { error(s, "invalid-free", std::string(fn) + " of " + kname(k) + " object"); return false; }
  if (k != expect) { error(s, "mismatched-free", std::string(fn) + " of " + kname(k) + " object"); return false; }
  s.mem.erase(id);
  s.heapLive--;
  return true;
}

// ---------------------------------------------------------------- verdicts
std::string Exec::where(State &s) {
  if (s.st.empty()) return "?";
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 3; i--, n++) {
    if (n) r += " <- ";
    Frame &f = s.st[i];
    r += f.f->F->getName().str() + ":" + std::to_string(f.bb) + ":" + std::to_string(f.ip);
  }
  return r;
}
std::string Exec::inputsOf(State &s, Model &m) {
  std::string r;
  char b[40];
  for (auto &i : s.inputs) {
    uint64_t v = m.eval(i.e);
    if (!r.empty()) r += ",";
    if (i.kind == 'd') { snprintf(b, 40, "x%016llx", (unsigned long long)v); }
    else snprintf(b, 40, "%lld", (long long)sx(v, i.e->w == 1 ? 2 : i.e->w));
    r += b;
  }
  return r.empty() ? "-" : r;
}
bool Exec::replay(const std::string &inputs, std::string &how) {
  std::string bins = opt.replay;
  size_t p = 0;
  while (p < bins.size()) {
    size_t q = bins.find(',', p);
    std::string b = bins.substr(p, q == std::string::npos ? q : q - p);
    p = q == std::string::npos ? bins.size() : q + 1;
    for (int pert = 0; pert < 2; pert++) {
      pid_t pid = ::fork();
      if (pid == 0) {
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 1); dup2(dn, 2); dup2(dn, 0);
        setenv("MALLOC_PERTURB_", pert ? "173" : "85", 1);
        alarm(20);
        execl(b.c_str(), b.c_str(), "--one", curEntry.c_str(), inputs.c_str(), (char *)nullptr);
        _exit(79);
      }
      int stt = 0;
      waitpid(pid, &stt, 0);
      if (WIFEXITED(stt) && (WEXITSTATUS(stt) == 0 || WEXITSTATUS(stt) == 77 || WEXITSTATUS(stt) == 78 || WEXITSTATUS(stt) == 79)) continue;
      how = b.substr(b.rfind('/') + 1) + (pert ? "(perturb)" : "") + (WIFSIGNALED(stt) ? " signal " + std::to_string(WTERMSIG(stt)) : " exit " + std::to_string(WEXITSTATUS(stt)));
      return true;
    }
  }
  return false;
}
static const double niceA[] = {1.5, -2.25, 3.75, 7.0, -11.5, 0.625, 19.0, 5.125, 23.5, -0.375, 31.0, 2.0, 41.25, -6.5, 13.0, 57.5, 0.1875, 71.0, -17.25, 83.5};
static const double nice2[] = {0.5, 0.25, 0.75, 0.375, 0.875, 0.125, 0.625, 0.3125, 0.8125, 0.9375, 0.4375};
static const double nice3[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71};

Exec::CR Exec::confirm(State &s, std::vector<E> extra, const std::string &id, const std::string &msg, int kind, E got, E want) {
  std::vector<E> cs = s.pc;
  for (E e : extra) cs.push_back(canon(s, e));
  std::string how;
  auto tryModel = [&](Model &m) -> bool {
    std::string in = inputsOf(s, m);
    if (replay(in, how)) {
      viol.push_back({id, msg, where(s), in, true, how});
      st.violations++;
      return true;
    }
    return false;
  };
  bool uninitDep = false;
  for (E e : extra) for (uint32_t v : *e->vars) if (gVars[v].kind == VK_Uninit) uninitDep = true;
  // 1. nice values for the free doubles
  for (int set = 0; set < 4; set++) {
    std::unordered_map<uint32_t, E> mp;
    std::set<uint32_t> dv;
    for (auto &i : s.inputs) if (i.kind == 'd' && i.e->op == OVar) dv.insert((uint32_t)i.e->c);
    if (dv.empty() && set) break;
    int n = 0;
    for (uint32_t v : dv) {
      double d = set == 0 ? niceA[n % 20] * (1 + n / 20) : set == 1 ? nice2[n % 11] / (1 + n / 11) : set == 2 ? nice3[n % 20] + 100 * (n / 20) : 10.0 + 3 * n;
      n++;
      mp[v] = mkConst(d2b(d), 64);
    }
    std::unordered_map<E, E> memo;
    std::vector<E> c2;
    bool dead = false;
    for (E e : cs) { E r = rewriteVars(e, mp, memo); if (isF(r)) { dead = true; break; } c2.push_back(r); }
    if (dead) continue;
    std::unordered_map<uint32_t, uint64_t> mv;
    if (smt.check(c2, M_UF, &mv, 5000) == R_SAT) {
      Model m; m.vals = mv;
      for (auto &p : mp) m.vals[p.first] = p.second->c;
      if (tryModel(m)) return CR_CONFIRMED;
    }
  }
  // 2. UF model
  std::unordered_map<uint32_t, uint64_t> mv;
  Res r = smt.check(cs, M_UF, &mv, opt.ufTimeout);
  if (r == R_UNSAT) return CR_REFUTED;
  if (r == R_SAT) { Model m; m.vals = mv; if (tryModel(m)) return CR_CONFIRMED; }
  // 3. the UF query again with the doubles of the assertion fixed to one special value
  // (needed where an uninterpreted function is involved, which the exact query cannot decide)
  for (double sp : {(double)-INFINITY, -0.0, (double)INFINITY, (double)NAN, 5e-324, 1.7e308, 0.0, -0.5, 1.0, -1.0, 1e9}) {
    std::unordered_map<uint32_t, E> mp;
    std::set<uint32_t> av;
    for (E e : extra) av.insert(e->vars->begin(), e->vars->end());
    int n = 0;
    for (auto &i : s.inputs)
      if (i.kind == 'd' && i.e->op == OVar) { uint32_t v = (uint32_t)i.e->c; mp[v] = mkConst(d2b(av.count(v) ? sp : niceA[n++ % 20]), 64); }
    if (mp.empty()) break;
    std::unordered_map<E, E> memo;
    std::vector<E> c2;
    bool dead = false;
    for (E e : cs) { E q = rewriteVars(e, mp, memo); if (isF(q)) { dead = true; break; } c2.push_back(q); }
    if (dead || smt.check(c2, M_UF, &mv, 5000) != R_SAT) continue;
    Model m; m.vals = mv;
    for (auto &q : mp) m.vals[q.first] = q.second->c;
    if (tryModel(m)) return CR_CONFIRMED;
  }
  // 4. exact IEEE semantics
  st.checksExact++;
  r = smt.check(cs, M_EXACT, &mv, opt.exactTimeout);
  if (r == R_UNSAT) return CR_REFUTED;
  if (r == R_SAT) {
    Model m; m.vals = mv;
    if (tryModel(m)) return CR_CONFIRMED;
    // a few alternative models
    std::vector<E> c3 = cs;
    for (int k = 0; k < 3; k++) {
      E diff = mkFalse();
      for (auto &i : s.inputs) diff = mkOr1(diff, mkNot(mkBin(OEq, i.e, mkConst(m.eval(i.e), i.e->w))));
      c3.push_back(diff);
      if (smt.check(c3, M_EXACT, &mv, opt.exactTimeout / 4) != R_SAT) break;
      m = Model(); m.vals = mv;
      if (tryModel(m)) return CR_CONFIRMED;
    }
  }
  (void)uninitDep;
  return CR_UNDECIDED;
}

void Exec::error(State &s, const std::string &id, const std::string &msg, E cond) {
  std::string key = id + "@" + where(s);
  int &n = violCount[key];
  if (n < 3) {
    std::vector<E> ex;
    if (cond) ex.push_back(cond);
    n++;
    std::string dn = s.st.empty() ? "" : s.st.back().f->dname;
    CR r = confirm(s, ex, id, msg + " in " + dn, 0, nullptr, nullptr);
    if (r == CR_CONFIRMED) n = 100;
    if (r == CR_UNDECIDED) { st.undecided++; undecidedList.push_back(id + ": " + msg + " in " + dn + " @ " + where(s)); }
    if (r == CR_REFUTED) { st.refuted++; n--; }
  }
  if (!cond) { endPath(s, "error"); alive = false; }
}
// Obligations whose two sides fold to the same term need no path condition:
// they are collected over all paths and discharged together by the solver.
void Exec::obligation(E got, E want) {
  if (isC(got) && isC(want) && got->c == want->c) return;
  E x, y;
  if (got->w == 64 && got->op == OS2F && want->op == OS2F && intView(got, x) && intView(want, y)) { got = x; want = y; }
  if (!obliged.insert({got, want}).second) return;
  oblig.push_back({got, want});
  if (oblig.size() >= 500) discharge();
}
void Exec::discharge() {
  if (oblig.empty()) return;
  st.batchQueries++;
  if (smt.checkTrivialBatch({}, oblig, opt.ufTimeout) != R_UNSAT) { st.undecided++; undecidedList.push_back("batch"); }
  oblig.clear();
}
void Exec::check(State &s, E cond, const std::string &id, int kind, E got, E want) {
  cond = canon(s, cond);
  st.checks++;
  if (isT(cond)) {
    st.checksTrivial++;
    if (got && want) obligation(got, want);
    return;
  }
  E bad = mkNot(cond);
  if (!isF(cond)) {
    std::vector<E> cs;
    slice(s, bad, cs);
    st.checksUF++;
    smt.st.assertQueries++;
    Res r = smt.check(cs, M_UF, nullptr, opt.ufTimeout);
    if (r == R_UNSAT) return;
    if (kind == 2) { // modulo rounding
      st.checksReal++;
      E rb = mkNot(mkFCmp(OFOeq, got, want));
      std::vector<E> c2;
      slice(s, rb, c2);
      r = smt.check(c2, M_REAL, nullptr, opt.ufTimeout);
      if (r == R_UNSAT) return;
    }
  }
  int &n = violCount["check:" + id];
  if (n < 6) {
    CR r = confirm(s, {bad}, id, "check '" + id + "' fails", kind, got, want);
    if (r == CR_CONFIRMED) n = 100;
    else if (r == CR_UNDECIDED) { n++; st.undecided++; undecidedList.push_back("check " + id); }
    else st.refuted++;
  }
  if (isF(cond)) { endPath(s, "violated"); alive = false; return; }
  // continue under the assertion
  std::unordered_map<uint32_t, uint64_t> m; bool g = false;
  if (!(s.genuine && s.model && s.model->eval(cond))) {
    if (!feasible(s, cond, &m, &g)) { endPath(s, "violated"); alive = false; return; }
    s.model = overlay(s.model, m);
    s.genuine = s.genuine && g;
  }
  addPC(s, cond);
}
void Exec::endPath(State &s, const std::string &why) {
  st.paths++;
  if (why == "done" || why == "uncaught") {
    bool take = witnessLines.size() < opt.witnesses || (st.paths % 97 == 0 && witnessLines.size() < 2 * opt.witnesses);
    if (take) {
      Model m;
      if (s.model) m.vals = s.model->vals;
      bool ok = true;
      for (E c : s.pc) if (!m.eval(c)) { ok = false; break; }
      if (!ok && opt.exactTimeout) {
        std::unordered_map<uint32_t, uint64_t> mv;
        if (smt.check(s.pc, M_EXACT, &mv, 3000) == R_SAT) {
          m = Model(); m.vals = mv; ok = true;
          for (E c : s.pc) if (!m.eval(c)) { ok = false; break; }
        }
      }
      if (ok) {
        // doubles that are unconstrained get distinct ordinary values (better cross-check than zeros)
        std::set<uint32_t> con;
        for (E c : s.pc) con.insert(c->vars->begin(), c->vars->end());
        int n = 0;
        for (auto &i : s.inputs)
          if (i.kind == 'd' && i.e->op == OVar && !con.count((uint32_t)i.e->c)) { m.vals[(uint32_t)i.e->c] = d2b(niceA[n % 20] + n / 20); n++; }
        m.memo.clear();
        std::string l = curEntry + ";" + inputsOf(s, m) + ";" + why + ";";
        char b[40];
        bool first = true;
        for (auto &o : s.obs) {
          bool un = false;
          for (uint32_t v : *o.e->vars) if (gVars[v].kind == VK_Uninit) un = true;
          if (!first) l += ",";
          first = false;
          if (un) { l += "?"; continue; }
          uint64_t v = m.eval(o.e);
          if (o.kind == 'd') { double d = b2d(v); if (d != d) l += "nan"; else { snprintf(b, 40, "x%016llx", (unsigned long long)v); l += b; } }
          else { snprintf(b, 40, "%lld", (long long)sx(v, o.e->w)); l += b; }
        }
        witnessLines.push_back(l);
      }
    }
  }
}
void Exec::unsupported(State &s, const std::string &why) {
  st.unsupported++;
  unsupportedWhy[why + " @ " + (s.st.empty() ? "" : s.st.back().f->dname.substr(0, 120))]++;
  complete = false;
  alive = false;
}

// ------------------------------------------------------- calls / exceptions
void Exec::popFrame(State &s) {
  for (uint64_t id : s.st.back().allocas) s.mem.erase(id);
  s.st.pop_back();
}
void Exec::callFunction(State &s, const Function *F, std::vector<Val> args) {
  KFunc *k = kf(F);
  k->calls++;
  Frame f;
  f.f = k;
  f.loc.resize(k->nslots);
  for (unsigned i = 0; i < args.size() && i < F->arg_size(); i++) f.loc[i] = args[i];
  k->bbHit[0] = true;
  s.st.push_back(std::move(f));
  // byval copies
  for (unsigned i = 0; i < F->arg_size(); i++)
    if (F->getArg(i)->hasByValAttr()) {
      uint64_t sz = typeSize(F->getParamByValType(i));
      uint64_t id = allocObj(s, sz, K_Stack, "byval");
      s.st.back().allocas.push_back(id);
      bool okk;
      memcpyOp(s, mkConst(baseOf(id), 64), args[i].e, mkConst(sz, 64), okk);
      s.st.back().loc[i] = Val(mkConst(baseOf(id), 64));
    }
  if (s.st.size() > 400) unsupported(s, "stack depth");
}
void Exec::finishCall(State &s, const KInst &ki) {
  if (auto *I = dyn_cast<InvokeInst>(ki.I)) branchTo(s, I->getNormalDest());
  else advance(s);
}
void Exec::doReturn(State &s, Val v, bool has) {
  popFrame(s);
  if (s.st.empty()) { endPath(s, "done"); alive = false; return; }
  Frame &f = s.st.back();
  const KInst &ki = f.f->bb[f.bb].ins[f.ip];
  if (has) setLoc(s, ki, v);
  finishCall(s, ki);
}
uint64_t Exec::stdType(const std::string &n) {
  if (auto *G = M.getNamedGlobal(n)) return idOfGlobal(G);
  auto it = stdTypeIds.find(n);
  if (it != stdTypeIds.end()) return it->second;
  uint64_t id = nextId++;
  nameById[id] = n;
  kindById[id] = K_Global;
  stdTypeIds[n] = id;
  return id;
}
static const std::map<std::string, std::string> stdBase = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
bool Exec::typeMatches(uint64_t th, uint64_t cl) {
  if (th == cl) return true;
  std::string a = nameById[th], b = nameById[cl];
  while (true) {
    if (a == b) return true;
    auto it = stdBase.find(a);
    if (it != stdBase.end()) { a = it->second; continue; }
    auto *G = M.getNamedGlobal(a);
    if (G && G->hasInitializer()) // __si_class_type_info {vptr, name, base}
      if (auto *S = dyn_cast<ConstantStruct>(G->getInitializer()))
        if (S->getNumOperands() >= 3)
          if (auto *B = dyn_cast<GlobalVariable>(S->getOperand(2)->stripPointerCasts())) { a = B->getName().str(); continue; }
    return false;
  }
}
void Exec::throwStd(State &s, const std::string &type, const std::string &msg) {
  uint64_t id = allocObj(s, 16, K_Exc, "exc", true);
  auto o = find(s, id, true);
  writeAt(**o, 0, mkConst(baseOf(fakeVtable), 64));
  uint64_t mid = allocObj(s, msg.size() + 1, K_Exc, "excmsg", true);
  auto mo = find(s, mid, true);
  for (size_t i = 0; i < msg.size(); i++) writeAt(**mo, i, mkConst((uint8_t)msg[i], 8));
  writeAt(**find(s, id, true), 8, mkConst(baseOf(mid), 64));
  Exn x; x.obj = baseOf(id); x.type = stdType(type);
  s.exns[id] = x;
  throwExn(s, id);
}
void Exec::throwExn(State &s, uint64_t obj) {
  s.pendingExn = obj;
  unwind(s);
}
void Exec::unwind(State &s) {
  Exn &x = s.exns[s.pendingExn];
  while (!s.st.empty()) {
    Frame &f = s.st.back();
    const KInst &ki = f.f->bb[f.bb].ins[f.ip];
    if (auto *I = dyn_cast<InvokeInst>(ki.I)) {
      const LandingPadInst *L = I->getLandingPadInst();
      int sel = -1;
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isCatch(i)) {
          const Constant *C = L->getClause(i);
          if (C->isNullValue()) { sel = 1; break; }
          uint64_t t = idOfGlobal(cast<GlobalValue>(C->stripPointerCasts()));
          if (typeMatches(x.type, t)) { sel = (int)t; break; }
        } else { // filter
          sel = 0;
        }
      }
      if (sel < 0 && L->isCleanup()) sel = 0;
      if (sel >= 0) {
        branchTo(s, I->getUnwindDest());
        Frame &g = s.st.back();
        // skip phis handled by branchTo; landingpad is next
        const KInst &lk = g.f->bb[g.bb].ins[g.ip];
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val(mkConst(x.obj, 64)));
        v.agg->push_back(Val(mkConst(sel, 32)));
        setLoc(s, lk, v);
        advance(s);
        return;
      }
    }
    popFrame(s);
  }
  st.uncaught++;
  {
    // an exception leaving the harness is a violation (std::terminate natively)
    std::vector<E> none;
    int &n = violCount["uncaught"];
    if (n < 3) {
      n++;
      CR r = confirm(s, none, "uncaught-exception", "uncaught exception leaves the harness", 0, nullptr, nullptr);
      if (r == CR_CONFIRMED) n = 100;
      if (r == CR_UNDECIDED) { st.undecided++; undecidedList.push_back("uncaught exception"); }
      if (r == CR_REFUTED) { n--; st.refuted++; }
    }
  }
  endPath(s, "uncaught");
  alive = false;
}

void Exec::branchTo(State &s, const BasicBlock *to) {
  Frame &f = s.st.back();
  int ti = f.f->bbi[to];
  int from = f.bb;
  const BasicBlock *fromB = f.f->bb[from].ins[0].I->getParent();
  KBlock &kb = f.f->bb[ti];
  f.f->bbHit[ti] = true;
  if (kb.firstNonPhi) {
    std::vector<Val> nv(kb.firstNonPhi);
    for (unsigned i = 0; i < kb.firstNonPhi; i++) {
      auto *P = cast<PHINode>(kb.ins[i].I);
      int idx = P->getBasicBlockIndex(fromB);
      nv[i] = get(s, kb.ins[i], idx);
    }
    for (unsigned i = 0; i < kb.firstNonPhi; i++) setLoc(s, kb.ins[i], nv[i]);
  }
  f.prev = from;
  f.bb = ti;
  f.ip = kb.firstNonPhi;
}

Exec::Handler *Exec::findHandler(const Function *F) {
  auto it = hcache.find(F);
  if (it != hcache.end()) return it->second;
  Handler *h = nullptr;
  std::string n = F->getName().str();
  auto e = handlers.find(n);
  if (e != handlers.end()) h = &e->second;
  else {
    std::string d = dem(n);
    auto has = [&](const char *x) { return d.find(x) != std::string::npos; };
    if (d.rfind("std::__throw_", 0) == 0) h = &handlers["std::__throw"];
    else if (has("std::ostream") || has("std::basic_ostream") || has("std::ios_base") || has("std::basic_ios") || has("std::istream")) h = &handlers["std::stream"];
    else if (d.rfind("std::runtime_error::", 0) == 0 || d.rfind("std::logic_error::", 0) == 0 || d.rfind("std::invalid_argument::", 0) == 0 ||
             d.rfind("std::out_of_range::", 0) == 0 || d.rfind("std::exception::", 0) == 0 || d.rfind("std::length_error::", 0) == 0 ||
             d.rfind("std::bad_alloc::", 0) == 0 || d.rfind("std::domain_error::", 0) == 0 || d.rfind("std::range_error::", 0) == 0 || d.rfind("std::overflow_error::", 0) == 0)
      h = &handlers["std::exc"];
  }
  hcache[F] = h;
  return h;
}
bool Exec::isOverridden(const Function *F) {
  auto it = overrideCache.find(F);
  if (it != overrideCache.end()) return it->second;
  std::string n = F->getName().str();
  int r = 0;
  if (F->isDeclaration()) r = 1;
  else if (handlers.count(n)) r = 1;
  else {
    std::string d = dem(n);
    if (d.rfind("std::basic_ostream", 0) == 0 || d.rfind("std::ostream", 0) == 0) r = 1;
  }
  overrideCache[F] = r;
  return r;
}
void Exec::doCall(State &s, const KInst &ki) {
  auto *CB = cast<CallBase>(ki.I);
  const Function *F = ki.direct;
  if (CB->isInlineAsm()) { // compiler barriers only
    if (cast<InlineAsm>(CB->getCalledOperand())->getAsmString().empty()) { finishCall(s, ki); return; }
    unsupported(s, "inline asm");
    return;
  }
  if (F && F->isIntrinsic()) {
    // metadata operands etc. are handled inside
    std::vector<Val> a;
    auto id = F->getIntrinsicID();
    if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::experimental_noalias_scope_decl) { advance(s); return; }
    for (unsigned i = 0; i + 1 < ki.ops.size(); i++) a.push_back(get(s, ki, i));
    intrinsic(s, ki, F, a);
    return;
  }
  std::vector<Val> a;
  for (unsigned i = 0; i + 1 < ki.ops.size(); i++) a.push_back(get(s, ki, i));
  if (!F) {
    E p = getE(s, ki, ki.ops.size() - 1);
    uint64_t v;
    if (!concretize(s, p, v, "fnptr")) return;
    uint64_t id = v >> SLOT_SHIFT;
    if (id == nopFn && v == baseOf(id)) { finishCall(s, ki); return; }
    if (id == whatFn && v == baseOf(id)) {
      E m;
      if (!load(s, mkBin(OAdd, a[0].e, mkConst(8, 64)), 64, m)) return;
      setLoc(s, ki, Val(m));
      finishCall(s, ki);
      return;
    }
    auto it = funcById.find(id);
    if (it == funcById.end() || v != baseOf(id)) { error(s, "bad-call", "call through invalid function pointer"); return; }
    F = it->second;
  }
  if (isOverridden(F)) {
    Handler *h = findHandler(F);
    if (!h) { unsupported(s, "external " + dem(F->getName().str())); return; }
    size_t depth = s.st.size();
    (void)depth;
    if ((*h)(s, ki, a) && alive) finishCall(s, ki);
    return;
  }
  callFunction(s, F, std::move(a));
}

bool Exec::memcpyOp(State &s, E d, E sr, E n, bool &okk) {
  okk = false;
  uint64_t len;
  if (!concretize(s, n, len, "memcpy")) return false;
  if (len == 0) { okk = true; return true; }
  uint64_t id1, id2, dv, sv;
  E o1, o2;
  if (!concretize(s, d, dv, "memcpy dst")) return false;
  if (!concretize(s, sr, sv, "memcpy src")) return false;
  if (resolve(s, mkConst(sv, 64), len, false, id2, o2, "read") != RR_OK) return false;
  if (resolve(s, mkConst(dv, 64), len, true, id1, o1, "write") != RR_OK) return false;
  std::vector<BRef> tmp((*find(s, id2, false))->b.begin() + o2->c, (*find(s, id2, false))->b.begin() + o2->c + len);
  auto dst = find(s, id1, true);
  std::copy(tmp.begin(), tmp.end(), (*dst)->b.begin() + o1->c);
  okk = true;
  return true;
}

bool Exec::intrinsic(State &s, const KInst &ki, const Function *F, std::vector<Val> &a) {
  auto ret = [&](E e) { setLoc(s, ki, Val(e)); finishCall(s, ki); return true; };
  auto pair2 = [&](E x, E y) { Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(x)); v.agg->push_back(Val(y)); setLoc(s, ki, v); finishCall(s, ki); return true; };
  bool okk;
  switch (F->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    if (memcpyOp(s, a[0].e, a[1].e, a[2].e, okk) && okk) finishCall(s, ki);
    return true;
  case Intrinsic::memset: {
    uint64_t len, dv, id; E o;
    if (!concretize(s, a[2].e, len, "memset")) return false;
    if (!concretize(s, a[0].e, dv, "memset")) return false;
    if (len) {
      if (resolve(s, mkConst(dv, 64), len, true, id, o, "write") != RR_OK) return false;
      auto d = find(s, id, true);
      for (uint64_t i = 0; i < len; i++) (*d)->b[o->c + i] = BRef{a[1].e, 0};
    }
    finishCall(s, ki);
    return true;
  }
  case Intrinsic::lifetime_start: {
    E p = a[1].e;
    if (isC(p)) { auto o = find(s, p->c >> SLOT_SHIFT, false); if (o && (*o)->kind == K_Stack) { auto w = find(s, p->c >> SLOT_SHIFT, true); (*w)->dead = false; std::fill((*w)->b.begin(), (*w)->b.end(), BRef{nullptr, 0}); } }
    finishCall(s, ki); return true;
  }
  case Intrinsic::lifetime_end: {
    E p = a[1].e;
    if (isC(p)) { auto o = find(s, p->c >> SLOT_SHIFT, false); if (o && (*o)->kind == K_Stack) { auto w = find(s, p->c >> SLOT_SHIFT, true); (*w)->dead = true; } }
    finishCall(s, ki); return true;
  }
  case Intrinsic::fabs: if (a[0].e->w == 64) return ret(mkF1(OFAbs, a[0].e)); break;
  case Intrinsic::sqrt: return ret(mkFUn(FN_sqrt, a[0].e));
  case Intrinsic::floor: return ret(mkFUn(FN_floor, a[0].e));
  case Intrinsic::ceil: return ret(mkFUn(FN_ceil, a[0].e));
  case Intrinsic::trunc: return ret(mkFUn(FN_trunc, a[0].e));
  case Intrinsic::round: return ret(mkFUn(FN_round, a[0].e));
  case Intrinsic::rint: case Intrinsic::nearbyint: return ret(mkFUn(FN_rint, a[0].e));
  case Intrinsic::sin: return ret(mkFUn(FN_sin, a[0].e));
  case Intrinsic::cos: return ret(mkFUn(FN_cos, a[0].e));
  case Intrinsic::exp: return ret(mkFUn(FN_exp, a[0].e));
  case Intrinsic::log: return ret(mkFUn(FN_log, a[0].e));
  case Intrinsic::pow: return ret(mkFBinFn(FN_pow, a[0].e, a[1].e));
  case Intrinsic::copysign: {
    E m = mkF1(OFAbs, a[0].e);
    E sg = mkBin(OSlt, a[1].e, mkConst(0, 64));
    return ret(mkIte(sg, mkF1(OFNeg, m), m));
  }
  case Intrinsic::fmuladd: return ret(mkFBinOp(OFAdd, mkFBinOp(OFMul, a[0].e, a[1].e), a[2].e));
  case Intrinsic::is_fpclass: {
    uint64_t mask = a[1].e->c;
    E x = a[0].e, r = mkFalse();
    E nan = mkFCmp(OFUno, x, x);
    E inf = mkBin(OEq, mkF1(OFAbs, x), mkConst(0x7ff0000000000000ull, 64));
    if ((mask & 3) == 3) r = mkOr1(r, nan);
    if ((mask & 0x204) == 0x204) r = mkOr1(r, inf);
    if ((mask & 0x1f8) == 0x1f8) r = mkOr1(r, mkAnd1(mkNot(nan), mkNot(inf)));
    if (mask & ~(0x3ull | 0x204 | 0x1f8)) { unsupported(s, "is.fpclass"); return false; }
    return ret(r);
  }
  case Intrinsic::maxnum: case Intrinsic::minnum: {
    E x = a[0].e, y = a[1].e;
    bool mx = F->getIntrinsicID() == Intrinsic::maxnum;
    E r = mkIte(mkFCmp(OFUno, x, x), y, mkIte(mkFCmp(OFUno, y, y), x, mkIte(mkFCmp(OFOlt, x, y), mx ? y : x, mx ? x : y)));
    return ret(r);
  }
  case Intrinsic::umax: return ret(mkIte(mkBin(OUlt, a[0].e, a[1].e), a[1].e, a[0].e));
  case Intrinsic::umin: return ret(mkIte(mkBin(OUlt, a[0].e, a[1].e), a[0].e, a[1].e));
  case Intrinsic::smax: return ret(mkIte(mkBin(OSlt, a[0].e, a[1].e), a[1].e, a[0].e));
  case Intrinsic::smin: return ret(mkIte(mkBin(OSlt, a[0].e, a[1].e), a[0].e, a[1].e));
  case Intrinsic::abs: return ret(mkIte(mkBin(OSlt, a[0].e, mkConst(0, a[0].e->w)), mkBin(OSub, mkConst(0, a[0].e->w), a[0].e), a[0].e));
  case Intrinsic::expect: case Intrinsic::expect_with_probability: return ret(a[0].e);
  case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: finishCall(s, ki); return true;
  case Intrinsic::stacksave: return ret(mkConst(0, 64));
  case Intrinsic::is_constant: return ret(mkFalse());
  case Intrinsic::objectsize: return ret(mkConst(~0ull, 64));
  case Intrinsic::umul_with_overflow: {
    E x = a[0].e, y = a[1].e;
    unsigned w = x->w;
    E p = mkBin(OMul, x, y);
    E of;
    if (isC(x) && isC(y)) { unsigned __int128 q = (unsigned __int128)x->c * y->c; of = mkConst((q >> w) != 0, 1); }
    else if (isC(y) && y->c) of = mkBin(OUlt, mkConst(maskw(w) / y->c, w), x);
    else if (isC(x) && x->c) of = mkBin(OUlt, mkConst(maskw(w) / x->c, w), y);
    else of = mkAnd1(mkNot(mkBin(OEq, x, mkConst(0, w))), mkNot(mkBin(OEq, mkBin(OUDiv, p, x), y)));
    return pair2(p, of);
  }
  case Intrinsic::uadd_with_overflow: { E p = mkBin(OAdd, a[0].e, a[1].e); return pair2(p, mkBin(OUlt, p, a[0].e)); }
  case Intrinsic::usub_with_overflow: { return pair2(mkBin(OSub, a[0].e, a[1].e), mkBin(OUlt, a[0].e, a[1].e)); }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    bool add = F->getIntrinsicID() == Intrinsic::sadd_with_overflow;
    unsigned w = a[0].e->w; E z = mkConst(0, w);
    E p = mkBin(add ? OAdd : OSub, a[0].e, a[1].e);
    E sa = mkBin(OSlt, a[0].e, z), sb = mkBin(OSlt, a[1].e, z), sp = mkBin(OSlt, p, z);
    E same = mkBin(OEq, sa, add ? sb : mkNot(sb));
    return pair2(p, mkAnd1(same, mkNot(mkBin(OEq, sa, sp))));
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    uint64_t v;
    if (!concretize(s, a[0].e, v, "bitcount")) return false;
    unsigned w = a[0].e->w, r;
    if (F->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(v);
    else if (F->getIntrinsicID() == Intrinsic::ctlz) r = v ? __builtin_clzll(v) - (64 - w) : w;
    else r = v ? __builtin_ctzll(v) : w;
    return ret(mkConst(r, w));
  }
  case Intrinsic::eh_typeid_for: {
    uint64_t id = a[0].e->c >> SLOT_SHIFT;
    return ret(mkConst(id, 32));
  }
  case Intrinsic::trap: error(s, "trap", "llvm.trap reached"); return false;
  case Intrinsic::ubsantrap: error(s, "trap", "trap reached"); return false;
  default: break;
  }
  unsupported(s, "intrinsic " + F->getName().str());
  return false;
}

void Exec::registerHandlers() {
  auto H = [&](const char *n, Handler h) { handlers[n] = std::move(h); };
  auto set = [this](State &s, const KInst &ki, E e) { setLoc(s, ki, Val(e)); };
  // ---- harness intrinsics
  H("vp_int", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    // one variable per position, shared by all paths, to maximise cache hits
    unsigned cls = 0; // class of ranges: the variable fits in that many bits on every path
    if (isC(a[0].e) && isC(a[1].e)) {
      unsigned b = std::max(sbits(a[0].e), sbits(a[1].e));
      cls = b <= 20 ? 20 : b <= 31 ? 31 : 0;
    }
    static std::map<std::pair<size_t, unsigned>, E> pool;
    E &v = pool[{s.inputs.size(), cls}];
    if (!v) v = mkVar("i" + std::to_string(s.inputs.size()) + (cls ? "b" + std::to_string(cls) : ""), 32, VK_Int, cls);
    s.inputs.push_back({'i', v});
    if (!isC(a[0].e) || !isC(a[1].e)) { unsupported(s, "vp_int bounds " + toStr(a[0].e, 4) + " " + toStr(a[1].e, 4)); return false; }
    E c = mkAnd1(mkBin(OSle, a[0].e, v), mkBin(OSle, v, a[1].e));
    if (sx(a[0].e->c, 32) > sx(a[1].e->c, 32)) { st.assumedOut++; alive = false; return false; }
    auto m = std::make_shared<Model>();
    if (s.model) m->vals = s.model->vals;
    m->vals[(uint32_t)v->c] = a[0].e->c;
    s.model = m;
    addPC(s, c);
    if (a[0].e->c == a[1].e->c) addPC(s, mkBin(OEq, v, a[0].e));
    setLoc(s, ki, Val(v));
    return true;
  });
  H("vp_double", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    static std::map<size_t, E> pool;
    E &v = pool[s.inputs.size()];
    if (!v) v = mkVar("d" + std::to_string(s.inputs.size()), 64, VK_Double);
    s.inputs.push_back({'d', v});
    auto m = std::make_shared<Model>();
    if (s.model) m->vals = s.model->vals;
    m->vals[(uint32_t)v->c] = d2b(1.0 + (double)s.inputs.size());
    s.model = m;
    setLoc(s, ki, Val(v));
    return true;
  });
  H("vp_real", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    static std::map<size_t, E> pool;
    E &v = pool[s.inputs.size()];
    if (!v) v = mkVar("x" + std::to_string(s.inputs.size()), 64, VK_Double);
    s.inputs.push_back({'d', v});
    auto m = std::make_shared<Model>();
    if (s.model) m->vals = s.model->vals;
    double lo = b2d(a[0].e->c), hi = b2d(a[1].e->c);
    double fr = (double)((s.inputs.size() * 37) % 101) / 101.0;
    double mid = lo + (hi - lo) * fr;
    if (!(mid >= lo && mid <= hi)) mid = lo;
    m->vals[(uint32_t)v->c] = d2b(mid);
    s.model = m;
    addPC(s, mkAnd1(mkFCmp(OFOle, a[0].e, v), mkFCmp(OFOle, v, a[1].e)));
    setLoc(s, ki, Val(v));
    return true;
  });
  H("vp_frac", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    static std::map<size_t, E> pool;
    E &v = pool[s.inputs.size()];
    std::string n = std::to_string(s.inputs.size());
    if (!v) v = mkFrac(mkVar("ft" + n, 32, VK_Int), mkVar("fs" + n, 32, VK_Int), mkVar("fu" + n, 64, VK_Double));
    s.inputs.push_back({'d', v});
    auto m = std::make_shared<Model>();
    if (s.model) m->vals = s.model->vals;
    int64_t lo = sx(a[0].e->c, 32), hi = sx(a[1].e->c, 32);
    m->vals[(uint32_t)v->a->c] = a[0].e->c; m->vals[(uint32_t)v->b->c] = 0; m->vals[(uint32_t)v->d->c] = 0;
    s.model = m;
    if (lo > hi) { st.assumedOut++; alive = false; return false; }
    E z = mkConst(0, 32), one = mkConst(1, 32), mone = mkConst((uint64_t)-1, 32);
    addPC(s, mkAnd1(mkBin(OSle, a[0].e, v->a), mkBin(OSle, v->a, a[1].e)));
    addPC(s, mkAnd1(mkBin(OSle, mone, v->b), mkBin(OSle, v->b, one)));
    addPC(s, mkAnd1(mkOr1(mkBin(OSle, v->b, z), mkBin(OSle, z, v->a)), mkOr1(mkBin(OSle, z, v->b), mkBin(OSle, v->a, z))));
    setLoc(s, ki, Val(v));
    return true;
  });
  H("vp_bool", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    static std::map<size_t, E> pool;
    E &v = pool[s.inputs.size()];
    if (!v) v = mkVar("b" + std::to_string(s.inputs.size()), 1, VK_Bool);
    s.inputs.push_back({'b', v});
    setLoc(s, ki, Val(v));
    return true;
  });
  H("vp_pick", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t v;
    if (!concretize(s, a[0].e, v, "pick")) return false;
    setLoc(s, ki, Val(mkConst(v, 32)));
    return true;
  });
  H("vp_assume", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    E c = canon(s, a[0].e);
    if (isT(c)) return true;
    if (isF(c)) { st.assumedOut++; alive = false; return false; }
    if (!(s.genuine && s.model && s.model->eval(c))) {
      std::unordered_map<uint32_t, uint64_t> m; bool g = false;
      if (!feasible(s, c, &m, &g)) { st.assumedOut++; alive = false; return false; }
      s.model = overlay(s.model, m);
      s.genuine = s.genuine && g;
    }
    addPC(s, c);
    return true;
  });
  H("vp_check", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; std::string id = readCStr(s, a[1].e, ok);
    s.obs.push_back({'i', mkZExt(a[0].e, 32)});
    check(s, a[0].e, id, 0);
    return alive;
  });
  H("vp_eq", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; std::string id = readCStr(s, a[2].e, ok);
    E g = a[0].e, w = a[1].e;
    s.obs.push_back({'d', g});
    E eq = g == w ? mkTrue() : mkOr1(mkFCmp(OFOeq, g, w), mkAnd1(mkFCmp(OFUno, g, g), mkFCmp(OFUno, w, w)));
    check(s, eq, id, 1, g, w);
    return alive;
  });
  H("vp_eqi", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; std::string id = readCStr(s, a[2].e, ok);
    s.obs.push_back({'i', a[0].e});
    check(s, mkBin(OEq, a[0].e, a[1].e), id, 1, a[0].e, a[1].e);
    return alive;
  });
  H("vp_close", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; std::string id = readCStr(s, a[2].e, ok);
    E g = a[0].e, w = a[1].e;
    s.obs.push_back({'d', g});
    E eq = g == w ? mkTrue() : mkOr1(mkFCmp(OFOeq, g, w), mkAnd1(mkFCmp(OFUno, g, g), mkFCmp(OFUno, w, w)));
    check(s, eq, id, 2, g, w);
    return alive;
  });
  H("vp_obs", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { s.obs.push_back({'d', a[0].e}); return true; });
  H("vp_reach", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; reach[readCStr(s, a[0].e, ok)]++;
    return true;
  });
  H("vp_heap_live", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkConst(s.heapLive, 64))); return true; });
  H("vp_out_begin", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { s.out.clear(); s.outSep = true; s.capturing = true; return true; });
  H("vp_out_end", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { s.capturing = false; setLoc(s, ki, Val(mkConst(s.out.size(), 32))); return true; });
  H("vp_out_isnum", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t i; if (!concretize(s, a[0].e, i, "out")) return false;
    setLoc(s, ki, Val(mkConst(i < s.out.size() && s.out[i].num, 32))); return true; });
  H("vp_out_num", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t i; if (!concretize(s, a[0].e, i, "out")) return false;
    E v = i < s.out.size() && s.out[i].num ? s.out[i].e : mkConst(d2b(-987654.0), 64);
    setLoc(s, ki, Val(canon(s, v))); return true; });
  H("vp_out_text_is", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t i; if (!concretize(s, a[0].e, i, "out")) return false;
    bool ok; std::string t = readCStr(s, a[1].e, ok);
    if (i < s.out.size() && !s.out[i].num && s.out[i].e) { E b = s.out[i].e; setLoc(s, ki, Val(canon(s, t == "true" ? b : t == "false" ? mkNot(b) : mkConst(0, 1)))); return true; }
    setLoc(s, ki, Val(mkConst(i < s.out.size() && !s.out[i].num && s.out[i].s == t, 1))); return true; });

  // ---- heap
  auto alloc = [=, this](OKind k, unsigned szArg, bool nothrow, bool zero) {
    return [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
      uint64_t n;
      if (!concretize(s, a[szArg].e, n, "alloc")) return false;
      if (n > (1ull << 40)) {
        if (nothrow) { setLoc(s, ki, Val(mkConst(0, 64))); return true; }
        throwStd(s, "_ZTISt9bad_alloc", "std::bad_alloc");
        return false;
      }
      if (n > (1ull << 23)) { unsupported(s, "huge allocation"); return false; }
      uint64_t id = allocObj(s, n, k, "", zero);
      s.heapLive++;
      setLoc(s, ki, Val(mkConst(baseOf(id), 64)));
      return true;
    };
  };
  H("_Znwm", alloc(K_New, 0, false, false));
  H("_Znam", alloc(K_NewArr, 0, false, false));
  H("_ZnwmRKSt9nothrow_t", alloc(K_New, 0, true, false));
  H("_ZnamRKSt9nothrow_t", alloc(K_NewArr, 0, true, false));
  H("_ZnwmSt11align_val_t", alloc(K_New, 0, false, false));
  H("_ZnamSt11align_val_t", alloc(K_NewArr, 0, false, false));
  H("malloc", alloc(K_Malloc, 0, true, false));
  H("calloc", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t n, m;
    if (!concretize(s, a[0].e, n, "alloc") || !concretize(s, a[1].e, m, "alloc")) return false;
    if (n * m > (1ull << 23)) { unsupported(s, "huge allocation"); return false; }
    uint64_t id = allocObj(s, n * m, K_Malloc, "", true);
    s.heapLive++;
    setLoc(s, ki, Val(mkConst(baseOf(id), 64)));
    return true;
  });
  H("realloc", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t n, p;
    if (!concretize(s, a[0].e, p, "realloc") || !concretize(s, a[1].e, n, "realloc")) return false;
    if (n > (1ull << 23)) { unsupported(s, "huge allocation"); return false; }
    if (p) {
      uint64_t id0 = p >> SLOT_SHIFT;
      auto o = find(s, id0, false);
      if (!o) { error(s, "use-after-free", "realloc of freed/invalid pointer"); return false; }
      std::vector<BRef> old = (*o)->b;
      if (!doFree(s, mkConst(p, 64), K_Malloc, "realloc")) return false;
      uint64_t id = allocObj(s, n, K_Malloc, "", false);
      s.heapLive++;
      auto d = find(s, id, true);
      for (uint64_t i = 0; i < n && i < old.size(); i++) (*d)->b[i] = old[i];
      setLoc(s, ki, Val(mkConst(baseOf(id), 64)));
      return true;
    }
    uint64_t id = allocObj(s, n, K_Malloc, "", false);
    s.heapLive++;
    setLoc(s, ki, Val(mkConst(baseOf(id), 64)));
    return true;
  });
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
    H(n, [=, this](State &s, const KInst &ki, std::vector<Val> &a) { return doFree(s, a[0].e, K_New, "operator delete"); });
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvRKSt9nothrow_t"})
    H(n, [=, this](State &s, const KInst &ki, std::vector<Val> &a) { return doFree(s, a[0].e, K_NewArr, "operator delete[]"); });
  H("free", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { return doFree(s, a[0].e, K_Malloc, "free"); });

  // ---- C library
  for (const char *n : {"memcpy", "memmove"})
    H(n, [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
      bool okk; memcpyOp(s, a[0].e, a[1].e, a[2].e, okk);
      if (okk) setLoc(s, ki, a[0]);
      return okk;
    });
  H("memset", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t len, dv, id; E o;
    if (!concretize(s, a[2].e, len, "memset") || !concretize(s, a[0].e, dv, "memset")) return false;
    if (len) {
      if (resolve(s, mkConst(dv, 64), len, true, id, o, "write") != RR_OK) return false;
      auto d = find(s, id, true);
      E by = mkExtract(a[1].e, 0, 8);
      for (uint64_t i = 0; i < len; i++) (*d)->b[o->c + i] = BRef{by, 0};
    }
    setLoc(s, ki, a[0]);
    return true;
  });
  // one thread: a mutex is a flag in its first word
  for (const char *n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock"})
    H(n, [=, this, lk = std::string(n) != "pthread_mutex_unlock", tr = std::string(n) == "pthread_mutex_trylock"](State &s, const KInst &ki, std::vector<Val> &a) {
      E w; uint64_t u;
      if (!load(s, a[0].e, 32, w) || !concretize(s, w, u, "mutex")) return false;
      if (lk && u) { if (tr) { setLoc(s, ki, Val(mkConst(16, 32))); return true; } error(s, "deadlock", "a mutex that is held is locked again", nullptr); return false; }
      if (!lk && !u) { error(s, "unlock", "a mutex that is not held is unlocked", nullptr); return false; }
      if (!store(s, a[0].e, mkConst(lk, 32))) return false;
      setLoc(s, ki, Val(mkConst(0, 32)));
      return true;
    });
  H("strlen", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool ok; std::string r = readCStr(s, a[0].e, ok);
    if (!ok) { unsupported(s, "strlen"); return false; }
    setLoc(s, ki, Val(mkConst(r.size(), 64)));
    return true;
  });
  H("memcmp", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t n; if (!concretize(s, a[2].e, n, "memcmp")) return false;
    int r = 0;
    for (uint64_t i = 0; i < n && !r; i++) {
      E x, y;
      if (!load(s, mkBin(OAdd, a[0].e, mkConst(i, 64)), 8, x)) return false;
      if (!load(s, mkBin(OAdd, a[1].e, mkConst(i, 64)), 8, y)) return false;
      uint64_t u, v;
      if (!concretize(s, x, u, "memcmp") || !concretize(s, y, v, "memcmp")) return false;
      r = u < v ? -1 : u > v ? 1 : 0;
    }
    setLoc(s, ki, Val(mkConst(r, 32)));
    return true;
  });
  handlers["bcmp"] = handlers["memcmp"];
  H("strcmp", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    bool o1, o2; std::string x = readCStr(s, a[0].e, o1), y = readCStr(s, a[1].e, o2);
    if (!o1 || !o2) { unsupported(s, "strcmp"); return false; }
    setLoc(s, ki, Val(mkConst(x.compare(y), 32)));
    return true;
  });
  H("sysconf", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkConst(4096, 64))); return true; });
  for (const char *n : {"abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_call_unexpected"}) {
    std::string nm = n;
    H(n, [=, this](State &s, const KInst &ki, std::vector<Val> &a) { error(s, "terminate", nm + " called"); return false; });
  }
  H("printf", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkConst(0, 32))); return true; });
  H("puts", handlers["printf"]);
  H("putchar", handlers["printf"]);
  // ---- libm
  for (int f = 0; f < FN_pow; f++) {
    H(fnName[f], [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
      if (a[0].e->w != 64) { unsupported(s, "float math"); return false; }
      setLoc(s, ki, Val(mkFUn((FnId)f, a[0].e)));
      return true;
    });
  }
  for (int f = FN_pow; f < FN_COUNT; f++)
    H(fnName[f], [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
      setLoc(s, ki, Val(mkFBinFn((FnId)f, a[0].e, a[1].e)));
      return true;
    });
  H("nearbyint", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkFUn(FN_rint, a[0].e))); return true; });
  H("fabs", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkF1(OFAbs, a[0].e))); return true; });
  H("lround", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkF2S(mkFUn(FN_round, a[0].e), 64))); return true; });
  for (const char *n : {"fmax", "fmin"}) {
    bool mx = std::string(n) == "fmax";
    H(n, [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
      E x = a[0].e, y = a[1].e;
      setLoc(s, ki, Val(mkIte(mkFCmp(OFUno, x, x), y, mkIte(mkFCmp(OFUno, y, y), x, mkIte(mkFCmp(OFOlt, x, y), mx ? y : x, mx ? x : y)))));
      return true;
    });
  }
  // ---- C++ runtime
  H("__cxa_allocate_exception", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t n; if (!concretize(s, a[0].e, n, "exc")) return false;
    uint64_t id = allocObj(s, n < 16 ? 16 : n, K_Exc, "exception", true);
    setLoc(s, ki, Val(mkConst(baseOf(id), 64)));
    return true;
  });
  H("__cxa_free_exception", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { s.mem.erase(a[0].e->c >> SLOT_SHIFT); return true; });
  H("__cxa_throw", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t id = a[0].e->c >> SLOT_SHIFT;
    Exn x; x.obj = a[0].e->c; x.type = a[1].e->c >> SLOT_SHIFT; x.dtor = a[2].e->c;
    s.exns[id] = x;
    throwExn(s, id);
    return false;
  });
  H("__cxa_begin_catch", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    uint64_t id = a[0].e->c >> SLOT_SHIFT;
    s.exns[id].handlers++;
    s.caught.push_back(id);
    setLoc(s, ki, a[0]);
    return true;
  });
  H("__cxa_end_catch", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    if (s.caught.empty()) return true;
    uint64_t id = s.caught.back();
    s.caught.pop_back();
    Exn &x = s.exns[id];
    if (--x.handlers <= 0 && s.pendingExn != (id | (1ull << 63))) { s.mem.erase(id); }
    return true;
  });
  H("__cxa_rethrow", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    if (s.caught.empty()) { error(s, "terminate", "rethrow without exception"); return false; }
    uint64_t id = s.caught.back();
    s.exns[id].handlers++; // kept alive across the end_catch of the current handler
    throwExn(s, id);
    return false;
  });
  H("__cxa_get_exception_ptr", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, a[0]); return true; });
  H("__cxa_atexit", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { setLoc(s, ki, Val(mkConst(0, 32))); return true; });
  H("atexit", handlers["__cxa_atexit"]);
  H("__cxa_guard_acquire", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    E v; if (!load(s, a[0].e, 8, v)) return false;
    setLoc(s, ki, Val(mkConst(isC(v) && v->c ? 0 : 1, 32)));
    return true;
  });
  H("__cxa_guard_release", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { return store(s, a[0].e, mkConst(1, 8)); });
  H("__cxa_guard_abort", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { return true; });
  H("__cxa_throw_bad_array_new_length", [=, this](State &s, const KInst &ki, std::vector<Val> &a) { throwStd(s, "_ZTISt20bad_array_new_length", "bad_array_new_length"); return false; });
  H("std::__throw", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    std::string n = cast<CallBase>(ki.I)->getCalledFunction() ? dem(cast<CallBase>(ki.I)->getCalledFunction()->getName().str()) : "";
    std::string t = "_ZTISt13runtime_error";
    if (n.find("logic_error") != std::string::npos) t = "_ZTISt11logic_error";
    if (n.find("length_error") != std::string::npos) t = "_ZTISt12length_error";
    if (n.find("out_of_range") != std::string::npos) t = "_ZTISt12out_of_range";
    if (n.find("invalid_argument") != std::string::npos) t = "_ZTISt16invalid_argument";
    if (n.find("bad_alloc") != std::string::npos) t = "_ZTISt9bad_alloc";
    if (n.find("bad_array_new") != std::string::npos) t = "_ZTISt20bad_array_new_length";
    throwStd(s, t, n);
    return false;
  });
  H("std::exc", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    std::string n = dem(cast<CallBase>(ki.I)->getCalledFunction()->getName().str());
    if (n.find("::~") != std::string::npos) return true;
    if (n.find("what") != std::string::npos) {
      E m; if (!load(s, mkBin(OAdd, a[0].e, mkConst(8, 64)), 64, m)) return false;
      setLoc(s, ki, Val(m));
      return true;
    }
    // constructor: copy the message
    std::string msg = "std::exception";
    bool ok = true;
    if (a.size() > 1) {
      if (n.find("(char const*)") != std::string::npos) msg = readCStr(s, a[1].e, ok);
      else if (n.find("basic_string") != std::string::npos) {
        E p; if (!load(s, a[1].e, 64, p)) return false;
        msg = readCStr(s, p, ok);
      } else if (a[1].e) { // copy constructor
        E p; if (!load(s, mkBin(OAdd, a[1].e, mkConst(8, 64)), 64, p)) return false;
        if (!store(s, a[0].e, mkConst(baseOf(fakeVtable), 64))) return false;
        return store(s, mkBin(OAdd, a[0].e, mkConst(8, 64)), p);
      }
    }
    uint64_t mid = allocObj(s, msg.size() + 1, K_Exc, "excmsg", true);
    for (size_t i = 0; i < msg.size(); i++) writeAt(**find(s, mid, true), i, mkConst((uint8_t)msg[i], 8));
    if (!store(s, a[0].e, mkConst(baseOf(fakeVtable), 64))) return false;
    return store(s, mkBin(OAdd, a[0].e, mkConst(8, 64)), mkConst(baseOf(mid), 64));
  });
  H("std::stream", [=, this](State &s, const KInst &ki, std::vector<Val> &a) {
    auto *CF = cast<CallBase>(ki.I)->getCalledFunction();
    std::string n = CF ? dem(CF->getName().str()) : "";
    // which stream: only std::cout is recorded
    auto isCout = [&](E p) { if (!p || !isC(p)) return false; return nameById[p->c >> SLOT_SHIFT] == "_ZSt4cout"; };
    if (a.size() > 1 && isCout(a[0].e) && isC(a[1].e)) {
      auto nm = nameById.find(a[1].e->c >> SLOT_SHIFT);
      if (nm != nameById.end()) { if (nm->second.find("11noboolalpha") != std::string::npos) s.boolalpha = false; else if (nm->second.find("9boolalpha") != std::string::npos) s.boolalpha = true; }
    }
    if (!a.empty() && isCout(a[0].e) && s.capturing) {
      // a piece that follows another one without a separator joins its token
      auto push = [&](OutTok t) {
        if (!s.outSep && !s.out.empty()) {
          OutTok &l = s.out.back();
          if (!l.num && !l.e && !t.num && !t.e) l.s += t.s; else l = {false, nullptr, false, "?glued"};
        } else s.out.push_back(t);
        s.outSep = false;
      };
      auto text = [&](const std::string &t) {
        // split on whitespace like the native tokenizer
        size_t i = 0;
        while (i < t.size()) {
          size_t j = t.find_first_of(" \t\n", i);
          if (j == std::string::npos) j = t.size();
          if (j > i) push({false, nullptr, false, t.substr(i, j - i)});
          if (j < t.size()) { if (t[j] == '\n') s.out.push_back({false, nullptr, false, "\n"}); s.outSep = true; }
          i = j + 1;
        }
      };
      auto logical = [&](E b) { E t = b->w == 1 ? b : mkNot(mkBin(OEq, b, mkConst(0, b->w))); push(s.boolalpha ? OutTok{false, t, false, "?bool"} : OutTok{true, mkU2F(t), true, ""}); };
      if (n.find("operator<<(double)") != std::string::npos) push({true, a[1].e, false, ""});
      else if (n.find("operator<<(int)") != std::string::npos || n.find("operator<<(long)") != std::string::npos) push({true, mkS2F(a[1].e), true, ""});
      else if (n.find("operator<<(bool)") != std::string::npos || n.find("_M_insert<bool>") != std::string::npos) logical(a[1].e);
      else if (n.find("operator<<(unsigned") != std::string::npos) push({true, mkU2F(a[1].e), true, ""});
      else if (n.find("_M_insert<double>") != std::string::npos) push({true, a[1].e, false, ""});
      else if (n.find("_M_insert<unsigned long>") != std::string::npos) push({true, mkU2F(a[1].e), true, ""});
      else if (n.find("_M_insert<long>") != std::string::npos) push({true, mkS2F(a[1].e), true, ""});
      else if (n.find("std::endl") != std::string::npos || n.find("std::basic_ostream<char, std::char_traits<char>>& std::endl") != std::string::npos) text("\n");
      else if (n.find("__ostream_insert") != std::string::npos) {
        bool ok; std::string t = readCStr(s, a[1].e, ok);
        uint64_t len; if (!concretize(s, a[2].e, len, "len")) return false;
        text(t.substr(0, len));
      } else if (n.find("char const*)") != std::string::npos) { bool ok; text(readCStr(s, a[1].e, ok)); }
      else if (n.find(", char)") != std::string::npos) { if (isC(a[1].e)) text(std::string(1, (char)a[1].e->c)); }
      else if (n.find("basic_string<char") != std::string::npos && n.find("operator<<") != std::string::npos) {
        E p; if (!load(s, a[1].e, 64, p)) return false;
        bool ok; text(readCStr(s, p, ok));
      } else if (n.find("operator<<(std::ostream& (*)(std::ostream&))") != std::string::npos || n.find("& (*)(std::basic_ostream") != std::string::npos) {
        if (isC(a[1].e) && nameById[a[1].e->c >> SLOT_SHIFT].find("endl") != std::string::npos) text("\n");
      }
    }
    if (!ki.I->getType()->isVoidTy()) {
      if (ki.I->getType()->isPointerTy() && !a.empty()) setLoc(s, ki, a[0]);
      else if (bitsOf(ki.I->getType())) setLoc(s, ki, Val(mkConst(0, bitsOf(ki.I->getType()))));
    }
    return true;
  });
}

// ------------------------------------------------------------------ stepping
void Exec::step(State &s) {
  Frame &f = s.st.back();
  const KInst &ki = f.f->bb[f.bb].ins[f.ip];
  const Instruction *I = ki.I;
  s.steps++;
  st.steps++;
  auto ret = [&](E e) { setLoc(s, ki, Val(e)); advance(s); };
  switch (I->getOpcode()) {
  case Instruction::Ret: {
    if (I->getNumOperands()) { Val v = get(s, ki, 0); doReturn(s, v, true); }
    else doReturn(s, Val(), false);
    return;
  }
  case Instruction::Br: {
    auto *B = cast<BranchInst>(I);
    if (B->isUnconditional()) { branchTo(s, B->getSuccessor(0)); return; }
    int d = decide(s, getE(s, ki, 0));
    if (!alive) return;
    branchTo(s, B->getSuccessor(d ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *S = cast<SwitchInst>(I);
    E c = getE(s, ki, 0);
    for (auto &k : S->cases()) {
      int d = decide(s, mkBin(OEq, c, mkConst(k.getCaseValue()->getZExtValue(), c->w)));
      if (!alive) return;
      if (d) { branchTo(s, k.getCaseSuccessor()); return; }
    }
    branchTo(s, S->getDefaultDest());
    return;
  }
  case Instruction::Call: case Instruction::Invoke: doCall(s, ki); return;
  case Instruction::Unreachable: error(s, "unreachable", "unreachable executed"); return;
  case Instruction::Resume: {
    Val v = get(s, ki, 0);
    uint64_t id = (*v.agg)[0].e->c >> SLOT_SHIFT;
    popFrame(s);
    s.pendingExn = id;
    unwind(s);
    return;
  }
  case Instruction::Alloca: {
    auto *A = cast<AllocaInst>(I);
    uint64_t n = 1;
    if (A->isArrayAllocation()) { if (!concretize(s, getE(s, ki, 0), n, "alloca")) return; }
    uint64_t id = allocObj(s, n * typeSize(A->getAllocatedType()), K_Stack, "");
    f.allocas.push_back(id);
    ret(mkConst(baseOf(id), 64));
    return;
  }
  case Instruction::Load: {
    bool ok;
    Val v = loadTy(s, getE(s, ki, 0), I->getType(), ok);
    if (!ok || !alive) return;
    setLoc(s, ki, v);
    advance(s);
    return;
  }
  case Instruction::Store: {
    Val v = get(s, ki, 0);
    E p = getE(s, ki, 1);
    if (!storeTy(s, p, I->getOperand(0)->getType(), v) || !alive) return;
    advance(s);
    return;
  }
  case Instruction::GetElementPtr: {
    E b = getE(s, ki, 0);
    unsigned j = 1;
    for (auto it = gep_type_begin(cast<GetElementPtrInst>(I)), e = gep_type_end(cast<GetElementPtrInst>(I)); it != e; ++it, ++j) {
      E ix = getE(s, ki, j);
      if (auto *S = it.getStructTypeOrNull()) {
        b = mkBin(OAdd, b, mkConst(DL.getStructLayout(S)->getElementOffset(ix->c), 64));
      } else {
        uint64_t sz = typeSize(it.getIndexedType());
        if (ix->w < 64) ix = mkSExt(ix, 64);
        b = mkBin(OAdd, b, mkBin(OMul, ix, mkConst(sz, 64)));
      }
    }
    ret(b);
    return;
  }
  case Instruction::Add: ret(mkBin(OAdd, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::Sub: ret(mkBin(OSub, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::Mul: ret(mkBin(OMul, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E x = getE(s, ki, 0), y = getE(s, ki, 1);
    E z = mkBin(OEq, y, mkConst(0, y->w));
    if (!isF(z)) {
      if (isT(z)) { error(s, "div-by-zero", "integer division by zero"); return; }
      std::unordered_map<uint32_t, uint64_t> m; bool g;
      if (feasible(s, z, &m, &g)) error(s, "div-by-zero", "integer division by zero", z);
      std::unordered_map<uint32_t, uint64_t> m2;
      E nz = mkNot(z);
      if (!(s.genuine && s.model && s.model->eval(nz))) {
        if (!feasible(s, nz, &m2, &g)) { alive = false; return; }
        s.model = overlay(s.model, m2); s.genuine = s.genuine && g;
      }
      addPC(s, nz);
    }
    Op o = I->getOpcode() == Instruction::UDiv ? OUDiv : I->getOpcode() == Instruction::SDiv ? OSDiv : I->getOpcode() == Instruction::URem ? OURem : OSRem;
    ret(mkBin(o, x, y));
    return;
  }
  case Instruction::And: ret(mkBin(OAnd, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::Or: ret(mkBin(OOr, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::Xor: ret(mkBin(OXor, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::Shl: ret(mkBin(OShl, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::LShr: ret(mkBin(OLShr, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::AShr: ret(mkBin(OAShr, getE(s, ki, 0), getE(s, ki, 1))); return;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    E x = getE(s, ki, 0), y = getE(s, ki, 1);
    if (!x || x->w != 64) { unsupported(s, "non-double arithmetic"); return; }
    Op o = I->getOpcode() == Instruction::FAdd ? OFAdd : I->getOpcode() == Instruction::FSub ? OFSub : I->getOpcode() == Instruction::FMul ? OFMul : I->getOpcode() == Instruction::FDiv ? OFDiv : OFRem;
    ret(mkFBinOp(o, x, y));
    return;
  }
  case Instruction::FNeg: { E x = getE(s, ki, 0); if (x->w != 64) { unsupported(s, "non-double arithmetic"); return; } ret(mkF1(OFNeg, x)); return; }
  case Instruction::ICmp: {
    E x = getE(s, ki, 0), y = getE(s, ki, 1);
    E r;
    switch (cast<ICmpInst>(I)->getPredicate()) {
    case CmpInst::ICMP_EQ: r = mkBin(OEq, x, y); break;
    case CmpInst::ICMP_NE: r = mkNot(mkBin(OEq, x, y)); break;
    case CmpInst::ICMP_UGT: r = mkBin(OUlt, y, x); break;
    case CmpInst::ICMP_UGE: r = mkBin(OUle, y, x); break;
    case CmpInst::ICMP_ULT: r = mkBin(OUlt, x, y); break;
    case CmpInst::ICMP_ULE: r = mkBin(OUle, x, y); break;
    case CmpInst::ICMP_SGT: r = mkBin(OSlt, y, x); break;
    case CmpInst::ICMP_SGE: r = mkBin(OSle, y, x); break;
    case CmpInst::ICMP_SLT: r = mkBin(OSlt, x, y); break;
    default: r = mkBin(OSle, x, y); break;
    }
    ret(r);
    return;
  }
  case Instruction::FCmp: {
    E x = getE(s, ki, 0), y = getE(s, ki, 1);
    if (x->w != 64) { unsupported(s, "non-double compare"); return; }
    E un = mkFCmp(OFUno, x, y), r;
    auto P = cast<FCmpInst>(I)->getPredicate();
    switch (P) {
    case CmpInst::FCMP_FALSE: r = mkFalse(); break;
    case CmpInst::FCMP_TRUE: r = mkTrue(); break;
    case CmpInst::FCMP_OEQ: r = mkFCmp(OFOeq, x, y); break;
    case CmpInst::FCMP_OGT: r = mkFCmp(OFOlt, y, x); break;
    case CmpInst::FCMP_OGE: r = mkFCmp(OFOle, y, x); break;
    case CmpInst::FCMP_OLT: r = mkFCmp(OFOlt, x, y); break;
    case CmpInst::FCMP_OLE: r = mkFCmp(OFOle, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd1(mkNot(un), mkNot(mkFCmp(OFOeq, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(un); break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = mkOr1(un, mkFCmp(OFOeq, x, y)); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkFCmp(OFOle, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(mkFCmp(OFOlt, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(mkFCmp(OFOle, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(mkFCmp(OFOlt, y, x)); break;
    default: r = mkNot(mkFCmp(OFOeq, x, y)); break; // UNE
    }
    ret(r);
    return;
  }
  case Instruction::Select: {
    E c = canon(s, getE(s, ki, 0));
    Val a = get(s, ki, 1), b = get(s, ki, 2);
    if (isC(c)) { setLoc(s, ki, c->c ? a : b); advance(s); return; }
    if (I->getType()->isPointerTy() || a.agg) {
      int d = decide(s, c);
      if (!alive) return;
      setLoc(s, ki, d ? a : b);
      advance(s);
      return;
    }
    ret(mkIte(c, a.e, b.e));
    return;
  }
  case Instruction::Trunc: ret(mkExtract(getE(s, ki, 0), 0, bitsOf(I->getType()))); return;
  case Instruction::ZExt: if (bitsOf(I->getType()) > 64) { unsupported(s, "wide int"); return; } ret(mkZExt(getE(s, ki, 0), bitsOf(I->getType()))); return;
  case Instruction::SExt: if (bitsOf(I->getType()) > 64) { unsupported(s, "wide int"); return; } ret(mkSExt(getE(s, ki, 0), bitsOf(I->getType()))); return;
  case Instruction::FPToSI: ret(mkF2S(getE(s, ki, 0), bitsOf(I->getType()))); return;
  case Instruction::FPToUI: ret(mkF2U(getE(s, ki, 0), bitsOf(I->getType()))); return;
  case Instruction::SIToFP: if (!I->getType()->isDoubleTy()) { unsupported(s, "non-double"); return; } ret(mkS2F(getE(s, ki, 0))); return;
  case Instruction::UIToFP: if (!I->getType()->isDoubleTy()) { unsupported(s, "non-double"); return; } ret(mkU2F(getE(s, ki, 0))); return;
  case Instruction::FPExt: {
    E x = getE(s, ki, 0);
    if (x && isC(x) && x->w == 32) { float fl; uint32_t b = x->c; memcpy(&fl, &b, 4); ret(mkConst(d2b((double)fl), 64)); return; }
    unsupported(s, "fpext");
    return;
  }
  case Instruction::FPTrunc: {
    E x = getE(s, ki, 0);
    if (x && isC(x) && I->getType()->isFloatTy()) { float fl = (float)b2d(x->c); uint32_t b; memcpy(&b, &fl, 4); ret(mkConst(b, 32)); return; }
    unsupported(s, "fptrunc");
    return;
  }
  case Instruction::PtrToInt: { E x = getE(s, ki, 0); unsigned w = bitsOf(I->getType()); ret(w < 64 ? mkExtract(x, 0, w) : x); return; }
  case Instruction::IntToPtr: { E x = getE(s, ki, 0); ret(mkZExt(x, 64)); return; }
  case Instruction::BitCast: {
    Val v = get(s, ki, 0);
    setLoc(s, ki, v);
    advance(s);
    return;
  }
  case Instruction::Freeze: setLoc(s, ki, get(s, ki, 0)); advance(s); return;
  case Instruction::ExtractValue: {
    auto *X = cast<ExtractValueInst>(I);
    Val v = get(s, ki, 0);
    for (unsigned ix : X->getIndices()) { Val t = (*v.agg)[ix]; v = t; }
    if (!v.e && !v.agg) v = freshUndef(I->getType());
    setLoc(s, ki, v);
    advance(s);
    return;
  }
  case Instruction::InsertValue: {
    auto *X = cast<InsertValueInst>(I);
    Val v = get(s, ki, 0), w = get(s, ki, 1);
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(*v.agg);
    Val *p = &r;
    auto ixs = X->getIndices();
    for (unsigned d = 0; d < ixs.size(); d++) {
      if (d) { if (!p->agg) { unsupported(s, "insertvalue"); return; } p->agg = std::make_shared<std::vector<Val>>(*p->agg); }
      p = &(*p->agg)[ixs[d]];
    }
    *p = w;
    setLoc(s, ki, r);
    advance(s);
    return;
  }
  case Instruction::Fence: advance(s); return;
  case Instruction::AtomicRMW: {
    auto *A = cast<AtomicRMWInst>(I);
    E old;
    E p = getE(s, ki, 0), v = getE(s, ki, 1);
    if (!load(s, p, v->w, old)) return;
    E nv = v;
    if (A->getOperation() == AtomicRMWInst::Add) nv = mkBin(OAdd, old, v);
    else if (A->getOperation() == AtomicRMWInst::Sub) nv = mkBin(OSub, old, v);
    else if (A->getOperation() != AtomicRMWInst::Xchg) { unsupported(s, "atomicrmw"); return; }
    if (!store(s, p, nv)) return;
    ret(old);
    return;
  }
  default: break;
  }
  unsupported(s, std::string("instruction ") + I->getOpcodeName());
}

bool Exec::run(const std::string &entry) {
  curEntry = entry;
  t0 = now();
  Function *F = M.getFunction("vph_" + entry);
  if (!F) F = M.getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return false; }
  State *s0 = new State();
  s0->model = std::make_shared<Model>();
  s0->substMemo = std::make_shared<std::unordered_map<E, E>>();
  // static constructors
  std::vector<const Function *> ctors;
  if (auto *G = M.getNamedGlobal("llvm.global_ctors"))
    if (auto *A = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto &O : A->operands())
        if (auto *S = dyn_cast<ConstantStruct>(O))
          if (auto *CF = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) ctors.push_back(CF);
  for (auto *CF : ctors) {
    alive = true;
    callFunction(*s0, CF, {});
    // run to completion, concrete
    uint64_t n = 0;
    while (alive && !s0->st.empty() && n++ < 2000000) {
      Frame &f = s0->st.back();
      if (s0->st.size() == 1 && f.f->bb[f.bb].ins[f.ip].I->getOpcode() == Instruction::Ret) { popFrame(*s0); break; }
      step(*s0);
    }
    if (!s0->st.empty()) { fprintf(stderr, "static constructor %s did not complete\n", CF->getName().str().c_str()); s0->st.clear(); complete = false; }
  }
  st = Stats();
  alive = true;
  callFunction(*s0, F, {});
  work.push_back(s0);
  while (!work.empty()) {
    if (timeUp()) { complete = false; unsupportedWhy["time limit, " + std::to_string(work.size()) + " states pending"]++; break; }
    if (st.paths >= opt.maxPaths) { complete = false; unsupportedWhy["path limit"]++; break; }
    if (exprCount() > 12000000) { complete = false; unsupportedWhy["expression limit"]++; break; }
    State *s = work.back();
    work.pop_back();
    alive = true;
    uint64_t k = 0;
    while (alive) {
      step(*s);
      if ((++k & 4095) == 0 && timeUp()) break;
      if (s->steps > opt.maxSteps) { st.stepLimit++; complete = false; unsupportedWhy["step limit"]++; alive = false; }
    }
    if (alive) { complete = false; unsupportedWhy["time limit, " + std::to_string(work.size() + 1) + " states pending"]++; delete s; break; }
    delete s;
  }
  discharge();
  if (!opt.witnessFile.empty()) {
    FILE *f = fopen(opt.witnessFile.c_str(), "w");
    for (auto &l : witnessLines) fprintf(f, "%s\n", l.c_str());
    fclose(f);
  }
  return true;
}
static std::string js(const std::string &x) {
  std::string r = "\"";
  for (char c : x) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string Exec::json(const std::string &entry) {
  std::string r = "{";
  auto num = [&](const char *k, double v, bool last = false) { char b[64]; snprintf(b, 64, "\"%s\":%.10g%s", k, v, last ? "" : ","); r += b; };
  r += "\"entry\":" + js(entry) + ",\"complete\":" + (complete ? "true" : "false") + ",";
  num("paths", st.paths); num("infeasible", st.infeasible); num("assumed_out", st.assumedOut); num("forks", st.forks); num("steps", st.steps);
  num("unsupported", st.unsupported); num("branches", st.branches); num("checks", st.checks); num("checks_trivial", st.checksTrivial);
  num("checks_smt", st.checksUF); num("checks_exact", st.checksExact); num("checks_real", st.checksReal); num("undecided", st.undecided);
  num("refuted", st.refuted); num("mem_checks", st.memChecks); num("sym_reads", st.symReads); num("sym_writes", st.symWrites);
  num("batch_queries", st.batchQueries); num("uncaught", st.uncaught); num("conc_cap", st.concCap); num("exprs", exprCount());
  num("queries", smt.st.queries); num("cache_hits", smt.st.cacheHits); num("sat", smt.st.sat); num("unsat", smt.st.unsat); num("unknown", smt.st.unknown);
  num("assert_queries", smt.st.assertQueries); num("pc_queries", smt.st.pcQueries); num("solver_s", smt.st.time); num("wall_s", now() - t0);
  num("witnesses", witnessLines.size());
  r += "\"violations\":[";
  for (size_t i = 0; i < viol.size(); i++) {
    auto &v = viol[i];
    r += (i ? "," : "") + std::string("{\"id\":") + js(v.id) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"inputs\":" + js(v.inputs) + ",\"how\":" + js(v.how) + "}";
  }
  r += "],\"undecided_list\":[";
  for (size_t i = 0; i < undecidedList.size() && i < 20; i++) r += (i ? "," : "") + js(undecidedList[i]);
  r += "],\"incomplete_why\":{";
  bool f = true;
  for (auto &p : unsupportedWhy) { r += (f ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); f = false; }
  r += "},\"reach\":{";
  f = true;
  for (auto &p : reach) { r += (f ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); f = false; }
  r += "},\"functions\":{";
  f = true;
  for (auto &p : kfs)
    if (p.second->calls && p.second->dname.find("etr::") != std::string::npos) {
      size_t hit = 0;
      for (bool b : p.second->bbHit) hit += b;
      r += (f ? "" : ",") + js(p.second->dname) + ":[" + std::to_string(p.second->calls) + "," + std::to_string(hit) + "," + std::to_string(p.second->bb.size()) + "]";
      f = false;
    }
  r += "}}";
  return r;
}
