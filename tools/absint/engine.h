#pragma once
#include "val.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IntrinsicsX86.h"

using namespace llvm;

struct Undecided : std::runtime_error { using std::runtime_error::runtime_error; };

// thrown by an access whose alternatives cannot be represented by one value: the caller re-executes the instruction once per case
struct Split { std::vector<B> cases; };

struct Cell { V v; unsigned size; u64 seq; };
struct Obj;
struct Region {
  enum K { FILL, COPY } k = FILL;
  V start, len;           // byte offsets
  V elem; unsigned esize = 1;
  std::shared_ptr<const Obj> src; V srcStart;
  u64 seq = 0;
};
typedef std::vector<Term> Sym;
struct Obj {
  int id = 0;
  V size;
  enum K { STACK, HEAP, GLOBAL, FUNC, EXT } kind = STACK;
  bool ro = false;
  enum D { UNDEFD, ZERO, LAZYD } def = UNDEFD;
  int hid = 0;
  u64 defSeq = 0;
  unsigned align = 16;
  std::map<Sym, std::map<i64, Cell>> cells;
  std::vector<Region> regions;
  std::string name;
};
typedef std::shared_ptr<Obj> OP;

struct Stream { int obj; u64 w = 0, r = 0; };
struct State {
  std::map<int, OP> mem;
  B pc = BT;
  std::vector<DLin> cons;
  std::map<int, Stream> streams;
  int frozen = 0, guard = 0;      // sds_freeze: dynamic storage older than this, and every global, must not change
  std::set<int> frozenStack;
  V heap;                         // bytes of dynamic storage that are live
  u64 least = 0;                  // at least so many bytes of dynamic storage are live
  u64 work = 0;                   // instructions on the longest path to here (bulk operations count per 16 bytes)
};
struct FuncInfo {
  Function *F;
  std::map<const Value *, int> num; int n = 0;
  DominatorTree dt;
  std::map<const BasicBlock *, const BasicBlock *> ipdom;
  struct Loop { std::set<const BasicBlock *> latches; std::vector<int> live; };
  std::map<const BasicBlock *, Loop> loops; // by header; live: the values at the header, those that change first
};
typedef std::vector<V> Regs;
// a state seen earlier on the same path: when it comes back, the program does not end
struct Seen { std::map<int, OP> mem; std::map<int, Stream> streams; std::vector<V> vals; };
struct Visits { unsigned n = 0; std::shared_ptr<const Seen> seen; };
struct Ctx {
  State st; Regs regs; const BasicBlock *prev = nullptr;
  enum S { AT_STOP, RETURNED, THREW } status = AT_STOP;
  V ret; std::string ti; V exc;
  std::vector<int> allocas;
  std::map<const BasicBlock *, Visits> visits; // of the loops this path is in
};
struct Outcome { State st; V ret; bool threw = false; std::string ti; V exc; };

struct Finding {
  enum K { REFUTED, UNKNOWN } k; std::string rule, msg, loc, stack, model;
  bool operator<(const Finding &o) const { return std::tie(k, rule, msg, loc) < std::tie(o.k, o.rule, o.msg, o.loc); }
};

class Engine {
public:
  Module *M; const DataLayout *DL;
  Dom D;
  std::map<const Function *, std::shared_ptr<FuncInfo>> finfo;
  std::map<const GlobalObject *, int> gobj;
  std::map<int, const GlobalObject *> objG;
  std::map<int, OP> constObjs;
  std::map<int, uint32_t> objAtom;
  std::map<std::string, int> typeIds;
  std::map<std::tuple<int,Sym,i64>, std::vector<B>> lazyBytes; // (hid, sym, off)
  std::map<int, std::set<Sym>> lazySyms;
  int nextObj = 1, nextHid = 1; u64 seq = 1; u64 steps = 0, maxSteps = 400000000ull;
  double deadline = 0;
  int pick = -1; int intIdx = 0; bool usedInt = false; // concretization mode
  std::vector<Finding> findings; std::set<Finding> fset;
  u64 nProved = 0, nRefuted = 0, nUnknown = 0, nBounds = 0, nCalls = 0, nMerges = 0, nForks = 0, nUB = 0, nSplits = 0;
  std::set<const Function *> visited; std::set<std::string> intercepts;
  std::vector<const Instruction *> stack;
  std::mt19937_64 rng{12345};
  int depth = 0; int exdepth = 0;
  u64 heapLimit = 0, maxHeap = 0; // an obligation may not need more dynamic storage than this
  u64 maxVisits = 0; // most iterations of one loop on one path
  std::map<const Function *, Visits> active; // functions on the call stack
  bool trace = false;

  Engine(Module *m) : M(m), DL(&m->getDataLayout()) {}
  void reset();
  void runWitness(Function *F, const std::vector<u64> &args);

  FuncInfo &info(const Function *F);
  V operand(Ctx &c, FuncInfo &fi, const Value *v);
  V constant(const Constant *c);
  V undefOf(Type *t);
  V zeroOf(Type *t);
  V baseOf(int id);
  int newObj(State &s, V size, Obj::K k, const std::string &nm);
  OP getObj(State &s, int id);
  Obj &mut(State &s, int id);
  bool isFrozen(const State &s, const Obj &o) const;
  int globalObj(const GlobalObject *g);
  OP materialize(int id);
  void initCells(Obj &o, const Constant *c, u64 off);
  bool resolve(State &s, const V &p, int &id, V &off);
  V load(State &s, const V &p, Type *t, const Instruction *at, unsigned align = 1);
  V loadInt(State &s, const V &p, unsigned bytes, const Instruction *at);
  V loadVal(State &s, const V &p, unsigned bytes, const Instruction *at); // may be FP
  void store(State &s, const V &p, const V &v, Type *t, const Instruction *at, unsigned align = 1);
  void storeInt(State &s, const V &p, const V &v, unsigned bytes, const Instruction *at);
  V readAt(State &s, const Obj &o, const Sym &sym, i64 off, unsigned bytes);
  V gapByte(State &s, const Obj &o, const Sym &sym, i64 off, u64 minSeq);
  V lazyByte(const Obj &o, int hid, const Sym &sym, i64 off, Dom::VarInfo::K k);
  void writeAt(State &s, Obj &o, const Sym &sym, i64 off, unsigned bytes, const V &v);
  bool disjoint(State &s, const Sym &a, i64 ao, u64 an, const Sym &b, i64 bo, u64 bn);
  V sliceBytes(const V &v, unsigned from, unsigned n);
  bool boundsOK(State &s, const Obj &o, const V &off, u64 len, const Instruction *at, const char *what);
  std::vector<std::pair<B, V>> enumerate(State &s, const V &off, size_t limit = 300);
  void splitOff(const V &off, Sym &sym, i64 &o);
  void memcpy_(State &s, const V &d, const V &src, const V &n, const Instruction *at);
  void fill_(State &s, const V &d, const V &elem, unsigned esz, const V &count, const Instruction *at);
  int isGE(State &s, const V &a, const V &b); // 1 / 0 / -1

  std::vector<Outcome> call(State st, Function *F, std::vector<V> args);
  std::vector<Outcome> callInst(Ctx &c, FuncInfo &fi, const CallBase &cb);
  void exec(Ctx c, FuncInfo &fi, const BasicBlock *bb, BasicBlock::const_iterator it, const BasicBlock *stop, std::vector<Ctx> &out);
  bool step(Ctx &c, FuncInfo &fi, const Instruction &I); // non control; false: needs a fork on a select
  [[noreturn]] void split(State &s, const std::vector<std::pair<B, V>> &alts, const char *why);
  void resplit(Ctx &c, FuncInfo &fi, const BasicBlock *bb, BasicBlock::const_iterator it, const BasicBlock *stop, std::vector<Ctx> &out, const Split &sp);
  void arrive(Ctx &c, FuncInfo &fi, const BasicBlock *from, const BasicBlock *to);
  void fork(const Ctx &c, FuncInfo &fi, const BasicBlock *bb, const std::vector<std::pair<B, const BasicBlock *>> &succ, const BasicBlock *stop, std::vector<Ctx> &out);
  void assume(State &s, B cond);
  void mergeAll(std::vector<Ctx> &v, FuncInfo &fi, const BasicBlock *at);
  bool again(Ctx &c, FuncInfo &fi, const BasicBlock *from, const BasicBlock *to);
  static bool sameState(const Seen &a, const State &b);
  bool tryMerge(Ctx &a, Ctx &b, FuncInfo &fi, const BasicBlock *at);
  bool mergeState(const State &a, const State &b, State &out, B &f);
  bool landing(Ctx &c, FuncInfo &fi, const InvokeInst &inv, const Outcome &o);
  bool builtin(State &st, const CallBase &cb, Function *F, std::vector<V> &args, std::vector<Outcome> &out);
  bool intrinsic(State &st, const IntrinsicInst &I, std::vector<V> &a, V &r);
  V cmp(State &st, CmpInst::Predicate p, const V &a, const V &b);
  V cmpVal(State &st, CmpInst::Predicate p, const V &a, const V &b);
  V binop(State &st, unsigned opc, const V &a, const V &b, const Instruction *I);
  V binopV(State &st, unsigned opc, const V &a, const V &b, const Instruction *I);
  bool flat(const V &v, Type *t, std::vector<B> &out);
  V unflat(const std::vector<B> &b, size_t &pos, Type *t);
  V bitcast(const V &v, Type *from, Type *to);
  V gep(Ctx &c, FuncInfo &fi, const GEPOperator &g);
  V toInt(const V &v, unsigned w);

  void report(const std::string &rule, const std::string &msg, const Instruction *at, State &st, B bad);
  std::string where(const Instruction *at);
  std::string stackStr();
  std::string modelStr(const Dom::Model &m);
  bool definite(State &st, B cond, Dom::Model &m);
  B dependsOnUndef(State &st, B b); // condition (under the path condition) on which b depends on indeterminate storage; BF if it never does
  B boolOf(State &st, const V &v, const char *what);
  void ctx(State &s) { D.pc = s.pc; D.cons = &s.cons; }
  void tick() { if (++steps > maxSteps) throw Undecided("step budget"); if ((steps & 0xfff) == 0 && deadline > 0 && now() > deadline) throw Undecided("time budget"); }
  static double now();
};
