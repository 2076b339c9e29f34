#include <regex>
#include <unordered_map>
#pragma once
#include "state.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <functional>
#include <deque>
#include <chrono>

using llvm::Value; using llvm::Instruction; using llvm::BasicBlock; using llvm::Function; using llvm::Type; using llvm::CallBase; using llvm::Loop;
using std::set; using std::deque;

struct Split { bool eq; Lin e; shared_ptr<State> st; };            // re-execute the instruction under e<=0 / e>0  (or e==0 / e!=0)
struct ForkVals { vector<Val> v; };          // continue with each value as result
struct Die {};                               // state is infeasible / cannot continue

struct FnInfo {
  map<const Value *, int> num; vector<const Value *> byNum;
  std::unique_ptr<llvm::DominatorTree> DT; std::unique_ptr<llvm::LoopInfo> LI;
  map<const BasicBlock *, int> rpo; vector<const BasicBlock *> order;
  map<const BasicBlock *, set<int>> liveIn, liveOut;
  map<const Instruction *, set<int>> liveAfter;   // at calls
};

struct Alarm { string kind, msg, file, fn, tag; int line = 0; vector<string> stack, trace; string extra; bool inRepo = false; int count = 1; };

typedef vector<pair<State, Val>> Rets;
struct EdgeState { const BasicBlock *from, *to; State s; };

struct Config { int unroll = 3; int groupCap = 6; int totalCap = 300; double timeLimit = 600, alarmTime = 40; long stepLimit = 0; int maxConcrete = 400; bool verbose = false; bool nsw = true; string entry = "harness"; std::set<string> kinds; std::vector<std::regex> only; };

struct Engine {
  llvm::Module &M; const llvm::DataLayout &DL; Config cfg;
  map<const Function *, FnInfo> fi;
  map<const Value *, int> gobj; map<int, shared_ptr<Obj>> constObj;
  map<string, Alarm> alarms;
  set<string> reached, marks, havoced; map<string, set<string>> obligations;  // kind -> sites
  map<string, long> obCount;
  set<string> analysed; set<const CallBase *> callsites;
  long steps = 0, states = 0, merges = 0, joins = 0, widenings = 0, loops = 0;
  std::chrono::steady_clock::time_point t0; bool outOfBudget = false; double firstAlarm = -1; string budgetWhy;
  typedef std::function<void(Engine &, State, const CallBase &, vector<Val> &, Rets &)> Builtin;
  map<string, Builtin> bi;
  Engine(llvm::Module &m) : M(m), DL(m.getDataLayout()) { t0 = std::chrono::steady_clock::now(); }

  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  FnInfo &info(const Function *F);
  // values
  Val eval(State &s, const Value *v);
  void set_(State &s, const Instruction *i, const Val &v) { s.F().env[info(i->getFunction()).num[i]] = v; }
  [[noreturn]] void throwEnum(State &s, const Lin &e);
  Lin canonS(State &s, const Lin &e, int w); Lin canonU(State &s, const Lin &e, int w);
  Lin modPow(State &s, const Lin &e, I k); pair<Lin, Lin> divmod(State &s, const Lin &e, I k);
  Lin andMask(State &s, const Lin &e, unsigned __int128 m, int w);
  Lin toInt(State &s, const Val &v, const Instruction *i, int w);
  Val binop(State &s, unsigned op, const Val &a, const Val &b, int w, const Instruction *i);
  int icmp(State &s, unsigned pred, const Val &a, const Val &b, int w, bool ptr, const Instruction *i, bool &constDecided);
  Val freshVal(State &s, Type *t, bool sgn = true);
  // memory
  int newObj(State &s, Obj::K k, const Lin &size, const Value *site, const string &name, uint8_t bg);
  const Obj *getObj(State &s, int id);
  bool access(State &s, const Val &p, const Lin &n, bool wr, const Instruction *i, const char *what);
  Val load(State &s, const Val &p, Type *t, const Instruction *i, bool sgn = true);
  void store(State &s, const Val &p, const Val &v, Type *t, const Instruction *i);
  bool provLoad(State &s, int obj, const Lin &off, int sz, llvm::Type *t, bool sgn, const llvm::Instruction *i, Val &out);
  Val loadCell(State &s, int obj, long off, int sz, Type *t, bool sgn, const Instruction *i);
  void storeCell(State &s, int obj, long off, int sz, const Val &v);
  void invalidate(State &s, int obj, const Lin &lo, const Lin &hi, int bgKind = SegK);
  void copyRange(State &s, int d, const Lin &doff, int so, const Lin &soff, const Lin &n);
  void doMemset(State &s, const Val &d, const Val &c, const Lin &n, const Instruction *i);
  void doMemcpy(State &s, const Val &d, const Val &src, const Lin &n, const Instruction *i);
  void provKill(State &s, Obj &o, const Lin &lo, const Lin &hi);
  void provAdd(State &s, int d, const Lin &doff, int so, const Lin &soff, const Lin &n, bool both);
  bool provEq(State &s, const Val &d, const Val &src, const Lin &n);
  Lin strLenOf(State &s, const Val &p, const Instruction *i);
  void smWrite(State &s, Obj &o, const Lin &lo, const Lin &hi, int what); bool smEnd(State &s, const Obj *o, const Lin &off, Lin &end);
  void initGlobal(Obj &o, const llvm::Constant *c, long off);
  void weakStore(State &s, Obj &o, long off, int sz, const Val &v);
  AVal toAVal(State &s, const Val &v);
  // alarms / obligations
  void alarm(State &s, const Instruction *i, const string &kind, const string &msg, const string &tag = "");
  void oblig(const string &kind, const Instruction *i);
  string locOf(const Instruction *i);
  // control
  Rets callFn(State s, const Function *F, vector<Val> &args, const CallBase *cs);
  void runBlock(State s, const BasicBlock *B, vector<EdgeState> &out, Rets &rets);
  void runRegion(Loop *L, const BasicBlock *entry, vector<State> in, vector<EdgeState> &exits, vector<State> &back, Rets &rets, const Function *F);
  void runLoop(Loop *L, State s, vector<EdgeState> &exits, Rets &rets, const Function *F);
  void execCall(State s, const CallBase *c, vector<State> &out);
  bool step(State &s, const Instruction *i);   // true if executed in place
  std::map<const BasicBlock *, long> hot;
  bool budget();
  // merging
  void compact(State &s); string canon(State &s, int mode);
  void mergeStates(vector<State> &v, const char *where);
  struct ZSlot { Lin *dst; Lin a, b; int w; };
  bool zip(State &A, State &B, bool constSlots, vector<ZSlot> &slots, bool forJoin);
  bool join(State &A, State &B, State &out, bool widen, bool constSlots);
  bool leq(State &B, State &W); bool leq1(State &B, State &W);
  void fold(State &s, int keep);
  void pushEdge(State &s, const BasicBlock *from, const BasicBlock *to);
  std::map<const BasicBlock *, pair<bool, set<const Instruction *>>> exitCmpCache; std::unordered_map<const void *, int> sids; int sid(const void *p) { return p ? sids.emplace(p, (int)sids.size() + 1).first->second : 0; }
  struct LoopCtx { const set<const Instruction *> *exitCmps = nullptr; map<const Instruction *, set<string>> seen; bool progress = false; };
  vector<LoopCtx *> lctx;
  set<string> loopJoined;   // loop heads where a join/widening happened
  void initBuiltins();
  void run();
  string json();
};
