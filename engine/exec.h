#pragma once
#include "expr.h"
#include "smt.h"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

struct Val {
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(E x) : e(x) {}
};
struct KOp { int slot = -1; Val v; bool undef = false; };
struct KInst { const llvm::Instruction *I; int slot; std::vector<KOp> ops; const llvm::Function *direct = nullptr; };
struct KBlock { std::vector<KInst> ins; unsigned firstNonPhi = 0; };
struct KFunc {
  const llvm::Function *F;
  unsigned nslots = 0;
  std::unordered_map<const llvm::BasicBlock *, int> bbi;
  std::vector<KBlock> bb;
  std::string dname;
  uint64_t calls = 0;
  std::vector<bool> bbHit;
};

enum OKind : uint8_t { K_Global, K_Stack, K_New, K_NewArr, K_Malloc, K_Exc, K_Func };
struct BRef { E e; uint8_t i; };
struct MemObj {
  uint64_t id; uint64_t size; OKind kind; bool ro = false; bool dead = false;
  std::vector<BRef> b;
};
static const unsigned SLOT_SHIFT = 26;
static const uint64_t SLOT_OFF = 1ull << 24;
static inline uint64_t baseOf(uint64_t id) { return (id << SLOT_SHIFT) + SLOT_OFF; }

struct Frame {
  KFunc *f; int bb = 0, prev = -1; unsigned ip = 0;
  std::vector<Val> loc;
  std::vector<uint64_t> allocas;
};
struct Exn { uint64_t obj = 0; uint64_t type = 0; uint64_t dtor = 0; int handlers = 0; };
struct Input { char kind; E e; };           // 'i','d','b'
struct Obs { char kind; E e; };             // 'd','i'
struct OutTok { bool num; E e; bool isInt; std::string s; };

struct Iv { int64_t lo, hi; };
struct State {
  std::unordered_map<E, Iv> rng; // signed intervals implied by the path condition
  std::vector<Frame> st;
  std::map<uint64_t, std::shared_ptr<MemObj>> mem;
  std::vector<E> pc;
  std::unordered_set<E> pcset;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::map<uint64_t, Exn> exns;         // by exception object id
  std::vector<uint64_t> caught;
  uint64_t pendingExn = 0;
  std::unordered_map<uint32_t, E> subst;
  std::unordered_map<E, E> tsub; // known values of truncated floating point terms
  std::set<uint32_t> tsubVars;
  void resetMemo() { substMemo = std::make_shared<std::unordered_map<E, E>>(tsub); }
  std::shared_ptr<std::unordered_map<E, E>> substMemo;
  std::shared_ptr<Model> model;
  bool genuine = true;
  long heapLive = 0;
  uint64_t steps = 0;
  unsigned depth = 0;
  std::vector<OutTok> out;
  bool capturing = false, outSep = true, boolalpha = false;
  int lastOut = 0;
  std::unordered_map<std::string, int> concForks;
};

struct Violation {
  std::string id, msg, where, inputs; bool confirmed; std::string how;
};

struct Options {
  std::string replay;      // comma-separated native binaries
  double maxTime = 60;
  uint64_t maxPaths = 200000;
  uint64_t maxSteps = 20000000;
  unsigned ufTimeout = 20000, exactTimeout = 60000, branchTimeout = 5000;
  unsigned witnesses = 200;
  std::string witnessFile;
  bool verbose = false;
};

struct Stats {
  uint64_t paths = 0, infeasible = 0, assumedOut = 0, forks = 0, steps = 0, unsupported = 0, branches = 0, stepLimit = 0, concCap = 0;
  uint64_t checks = 0, checksTrivial = 0, checksUF = 0, checksExact = 0, checksReal = 0, undecided = 0, refuted = 0;
  uint64_t violations = 0, memChecks = 0, symReads = 0, symWrites = 0, batchQueries = 0;
  uint64_t objects = 0, uncaught = 0;
};

class Exec {
public:
  Exec(llvm::Module &M, Options o);
  bool run(const std::string &entry);
  std::string json(const std::string &entry);
  Stats st;
  std::vector<Violation> viol;
  std::vector<std::string> undecidedList;
  std::map<std::string, uint64_t> unsupportedWhy;
  std::map<std::string, uint64_t> reach;
  std::set<std::string> fnSeen;
  Smt smt;
  bool complete = true;

private:
  llvm::Module &M;
  const llvm::DataLayout &DL;
  Options opt;
  double t0 = 0;
  std::map<const llvm::Function *, std::unique_ptr<KFunc>> kfs;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> gid;
  std::unordered_map<uint64_t, const llvm::Function *> funcById;
  std::unordered_map<uint64_t, std::string> nameById;
  std::unordered_map<uint64_t, OKind> kindById;
  std::map<uint64_t, std::shared_ptr<MemObj>> gmem;
  uint64_t nextId = 16;
  std::set<std::pair<E, E>> obliged;
  std::vector<std::pair<E, E>> oblig;
  void obligation(E got, E want);
  void discharge();
  std::deque<State *> work;
  std::unordered_map<std::string, int> violCount;
  std::vector<std::string> witnessLines;
  uint64_t uninitN = 0;
  std::unordered_map<std::string, uint64_t> stdTypeIds;
  uint64_t fakeVtable = 0;
  uint64_t whatFn = 0, nopFn = 0;
  using Handler = std::function<bool(State &, const KInst &, std::vector<Val> &)>;
  std::unordered_map<std::string, Handler> handlers;
  std::unordered_map<const llvm::Function *, Handler *> hcache;
  std::unordered_map<const llvm::Function *, int> overrideCache;
  std::unordered_map<std::string, std::string> demangled;

  // state helpers
  KFunc *kf(const llvm::Function *F);
  KOp kop(KFunc &k, std::unordered_map<const llvm::Value *, int> &slots, const llvm::Value *v);
  Val constVal(const llvm::Constant *C);
  uint64_t idOfGlobal(const llvm::GlobalValue *G);
  void initGlobals();
  void initGlobalBytes(MemObj &o, uint64_t off, const llvm::Constant *C);
  uint64_t typeSize(llvm::Type *T) { return DL.getTypeAllocSize(T).getFixedValue(); }
  unsigned bitsOf(llvm::Type *T);
  Val freshUndef(llvm::Type *T);
  Val get(State &s, const KInst &ki, unsigned i);
  E getE(State &s, const KInst &ki, unsigned i);
  E canon(State &s, E e);
  void setLoc(State &s, const KInst &ki, Val v);
  void advance(State &s) { s.st.back().ip++; }

  void step(State &s);
  bool alive = true; // current state alive
  void kill(State &s) { alive = false; }
  void branchTo(State &s, const llvm::BasicBlock *to);
  void addPC(State &s, E c);
  void learn(State &s, E c, bool pos);
  bool iv(State &s, E e, Iv &r, int depth = 0);
  int ivDecide(State &s, E c); // 1 true, 0 false, -1 unknown
  void slice(State &s, E extra, std::vector<E> &out);
  bool feasible(State &s, E c, std::unordered_map<uint32_t, uint64_t> *m, bool *genuineOut);
  int decide(State &s, E c); // forks if both feasible; returns value in the current state
  bool concretize(State &s, E e, uint64_t &out, const char *why);
  State *fork(State &s);

  // memory
  uint64_t allocObj(State &s, uint64_t size, OKind k, const std::string &name, bool zero = false);
  std::shared_ptr<MemObj> *find(State &s, uint64_t id, bool write);
  enum RR { RR_OK, RR_RETRY, RR_DEAD };
  RR resolve(State &s, E addr, unsigned n, bool write, uint64_t &id, E &off, const char *what);
  bool load(State &s, E addr, unsigned bits, E &out);
  bool store(State &s, E addr, E v);
  E readAt(State &s, MemObj &o, uint64_t off, unsigned n);
  void writeAt(MemObj &o, uint64_t off, E v);
  Val loadTy(State &s, E addr, llvm::Type *T, bool &ok);
  bool storeTy(State &s, E addr, llvm::Type *T, Val v);
  std::string readCStr(State &s, E p, bool &ok);
  bool doFree(State &s, E p, OKind expect, const char *fn);
  bool memcpyOp(State &s, E d, E sr, E n, bool &okk);

  // calls / exceptions
  void doCall(State &s, const KInst &ki);
  void callFunction(State &s, const llvm::Function *F, std::vector<Val> args);
  void doReturn(State &s, Val v, bool has);
  void finishCall(State &s, const KInst &ki); // for external calls: go on after call/invoke
  void throwExn(State &s, uint64_t obj);
  void unwind(State &s);
  bool typeMatches(uint64_t thrown, uint64_t clause);
  void throwStd(State &s, const std::string &type, const std::string &msg);
  uint64_t stdType(const std::string &mangledTI);
  bool intrinsic(State &s, const KInst &ki, const llvm::Function *F, std::vector<Val> &a);
  void registerHandlers();
  Handler *findHandler(const llvm::Function *F);
  bool isOverridden(const llvm::Function *F);
  void popFrame(State &s);

  // verdicts
  void error(State &s, const std::string &id, const std::string &msg, E cond = nullptr);
  void check(State &s, E cond, const std::string &id, int kind, E got = nullptr, E want = nullptr);
  enum CR { CR_CONFIRMED, CR_REFUTED, CR_UNDECIDED };
  CR confirm(State &s, std::vector<E> extra, const std::string &id, const std::string &msg, int kind, E got, E want);
  std::string inputsOf(State &s, Model &m);
  bool replay(const std::string &inputs, std::string &how);
  void endPath(State &s, const std::string &why);
  void unsupported(State &s, const std::string &why);
  std::string where(State &s);
  std::string curEntry;
  std::string dem(const std::string &n);
  bool timeUp();
  E lastErrCond = nullptr;
};
