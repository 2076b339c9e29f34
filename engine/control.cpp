#include "engine.h"
static inline __int128 pow2_31() { return ((__int128)1) << 31; }
using namespace llvm;
extern int g_zf;

bool Engine::budget() {
  if (outOfBudget) return false;
  if ((++steps & 255) == 0) {
    if (elapsed() > cfg.timeLimit) { outOfBudget = true; budgetWhy = "time"; return false; }
    if (!alarms.empty()) { if (firstAlarm < 0) firstAlarm = elapsed(); else if (elapsed() - firstAlarm > cfg.alarmTime) { outOfBudget = true; budgetWhy = "stopped after the first alarms"; return false; } }
  }
  return true;
}

// ------------------------------------------------------------------ blocks
static void note(State &s, const Instruction *i, int n) { auto t = make_shared<Trace>(); t->prev = s.tr; t->i = i; t->note = n; s.tr = t; }

// apply phis of `to` for the edge and prune dead values
void Engine::pushEdge(State &s, const BasicBlock *from, const BasicBlock *to) {
  FnInfo &f = info(to->getParent());
  vector<pair<int, Val>> ph;
  for (auto &p : to->phis()) ph.push_back({f.num[&p], eval(s, p.getIncomingValueForBlock(from))});
  Frame &F = s.F();
  auto &li = f.liveIn[to];
  for (auto it = F.env.begin(); it != F.env.end();) if (!li.count(it->first)) it = F.env.erase(it); else ++it;
  for (auto &p : ph) F.env[p.first] = p.second;
}

void Engine::runBlock(State s0, const BasicBlock *B, vector<EdgeState> &out, Rets &rets) {
  struct Item { State s; BasicBlock::const_iterator it; };
  vector<Item> st; st.push_back({std::move(s0), B->getFirstNonPHIIt()});
  while (!st.empty()) {
    Item cur = std::move(st.back()); st.pop_back(); states++; if (cfg.verbose) hot[B]++;
    bool done = false;
    while (!done) {
      if (!budget()) return;
      const Instruction *i = &*cur.it;
      if (auto *cb = dyn_cast<CallBase>(i)) {
        if (isa<DbgInfoIntrinsic>(i)) { ++cur.it; continue; }
        vector<State> o; execCall(std::move(cur.s), cb, o);
        auto nx = cur.it; ++nx;
        for (auto &x : o) st.push_back({std::move(x), nx});
        done = true; continue;
      }
      if (i->isTerminator()) {
        if (auto *r = dyn_cast<ReturnInst>(i)) {
          Val v; if (r->getReturnValue()) v = eval(cur.s, r->getReturnValue());
          rets.push_back({std::move(cur.s), v}); done = true; continue;
        }
        if (auto *b = dyn_cast<BranchInst>(i)) {
          if (b->isUnconditional()) { auto *t = b->getSuccessor(0); pushEdge(cur.s, B, t); out.push_back({B, t, std::move(cur.s)}); done = true; continue; }
          Val c = eval(cur.s, b->getCondition());
          if (c.k == Val::Int) {
            c.e = cur.s.res(c.e);
            if (!c.e.isConst()) { State x = cur.s; if (x.addEq(c.e)) st.push_back({x, cur.it}); if (cur.s.addNe(c.e)) st.push_back({cur.s, cur.it}); done = true; continue; }
            bool t = c.e.c & 1; auto *d = b->getSuccessor(t ? 0 : 1); note(cur.s, i, t);
            pushEdge(cur.s, B, d); out.push_back({B, d, std::move(cur.s)}); done = true; continue;
          }
          if (c.k == Val::Undef) alarm(cur.s, i, "uninit", "branch on an uninitialised value");
          for (int k = 0; k < 2; k++) { State x = cur.s; note(x, i, k == 0); pushEdge(x, B, b->getSuccessor(k)); out.push_back({B, b->getSuccessor(k), std::move(x)}); }
          done = true; continue;
        }
        if (auto *sw = dyn_cast<SwitchInst>(i)) {
          Val c = eval(cur.s, sw->getCondition()); int w = sw->getCondition()->getType()->getIntegerBitWidth();
          if (c.k == Val::Undef) alarm(cur.s, i, "uninit", "switch on an uninitialised value");
          vector<State> rest;
          if (c.k != Val::Int) { Val nv = freshVal(cur.s, sw->getCondition()->getType()); c = nv; }
          Lin e;
          try { e = canonS(cur.s, c.e, w); }
          catch (Split &sp) { State a = cur.s; if (a.assumeLe(sp.e)) st.push_back({a, cur.it}); if (cur.s.assumeLe(addc(neg(sp.e), 1))) st.push_back({cur.s, cur.it}); done = true; continue; }
          State cs = std::move(cur.s); bool alive = true;
          for (auto &k : sw->cases()) {
            I v = (I)k.getCaseValue()->getSExtValue(); Lin d = e - Lin(v); int q = cs.decEq(d);
            if (q == 0) continue;
            State x = cs; if (q == 1 || (x.addEq(d) && !x.dead)) { note(x, i, 1); pushEdge(x, B, k.getCaseSuccessor()); out.push_back({B, k.getCaseSuccessor(), std::move(x)}); }
            if (q == 1) { alive = false; break; }
            if (!cs.addNe(d)) { alive = false; break; }
          }
          if (alive && !cs.dead) { note(cs, i, 0); pushEdge(cs, B, sw->getDefaultDest()); out.push_back({B, sw->getDefaultDest(), std::move(cs)}); }
          done = true; continue;
        }
        if (isa<UnreachableInst>(i)) { done = true; continue; }
        done = true; continue;
      }
      try { step(cur.s, i); if (cur.s.dead) { done = true; continue; } ++cur.it; }
      catch (Split &sp) {
        State a = cur.s; State &b = cur.s;
        bool ok1, ok2;
        if (sp.eq) { ok2 = b.assumeNe(sp.e); ok1 = a.assumeEq(sp.e); }
        else { ok1 = a.assumeLe(sp.e); ok2 = b.assumeLe(addc(neg(sp.e), 1)); }
        if (ok1 && ok2) {}
        if (ok1 && !a.dead) { st.push_back({std::move(a), cur.it}); }
        if (ok2 && !b.dead) { st.push_back({std::move(b), cur.it}); }
        done = true;
      } catch (ForkVals &fv) {
        auto nx = cur.it; ++nx;
        for (auto &v : fv.v) { State a = cur.s; set_(a, i, v); st.push_back({std::move(a), nx}); }
        done = true;
      } catch (Die &) { done = true; }
    }
  }
}

// ------------------------------------------------------------------ calls
void Engine::execCall(State s, const CallBase *c, vector<State> &out) {
  // intrinsics
  vector<Val> args;
  const Function *F = c->getCalledFunction();
  auto fin = [&](Rets &rs) {
    bool any = !c->getType()->isVoidTy();
    for (auto &r : rs) { if (r.first.dead) continue; if (any) set_(r.first, c, r.second); out.push_back(std::move(r.first)); }
  };
  for (auto &a : c->args()) {
    Val v = eval(s, a.get());
    if (v.k == Val::Int) v.e = s.res(v.e);
    args.push_back(v);
  }
  if (!F) {
    Val t = eval(s, c->getCalledOperand());
    if (t.k == Val::Fn) F = t.f;
    else {
      if (t.k == Val::Ptr && t.obj == 0) { alarm(s, c, "null", "call through a null function pointer"); return; }
      alarm(s, c, "unknown-call", "call through an unknown function pointer"); return;
    }
  }
  callsites.insert(c);
  string name = F->getName().str();
  if (F->isIntrinsic()) {
    if (name.rfind("llvm.memcpy", 0) == 0) name = "memcpy"; else if (name.rfind("llvm.memmove", 0) == 0) name = "memmove"; else if (name.rfind("llvm.memset", 0) == 0) name = "memset";
    else if (name.rfind("llvm.bswap.i16", 0) == 0) name = "v_bswap16"; else if (name.rfind("llvm.bswap.i32", 0) == 0) name = "v_bswap32";
    else if (name.rfind("llvm.lifetime", 0) == 0 || name.rfind("llvm.stacksave", 0) == 0 || name.rfind("llvm.stackrestore", 0) == 0 || name.rfind("llvm.va_", 0) == 0 || name.rfind("llvm.assume", 0) == 0) { if (!c->getType()->isVoidTy()) set_(s, c, Val::top()); out.push_back(std::move(s)); return; }
  }
  if (F->isDeclaration() || bi.count(name)) {
    auto it = bi.find(name);
    if (it != bi.end()) {
      vector<State> work{std::move(s)};
      while (!work.empty()) {
        State cur = std::move(work.back()); work.pop_back();
        if (!budget()) return;
        Rets rs;
        vector<Val> av = args; for (auto &a : av) if (a.k == Val::Int || a.k == Val::Ptr) a.e = cur.res(a.e);
        try { it->second(*this, cur, *c, av, rs); fin(rs); }
        catch (Split &sp) {
          State a = sp.st ? *sp.st : cur, b = a;
          for (auto &p : sp.e.t) if (!a.citv(p.first)) { alarm(cur, c, "internal", "case split on a value the analyser cannot name: " + name); break; }
          if (sp.eq) { if (a.assumeEq(sp.e) && !a.dead) work.push_back(a); if (b.assumeNe(sp.e) && !b.dead) work.push_back(b); }
          else { if (a.assumeLe(sp.e) && !a.dead) work.push_back(a); if (b.assumeLe(addc(neg(sp.e), 1)) && !b.dead) work.push_back(b); }
        } catch (ForkVals &fv) { for (auto &v : fv.v) { State a = cur; set_(a, c, v); out.push_back(a); } }
        catch (Die &) {}
      }
      return;
    }
    // unmodelled external: havoc what is reachable through pointer arguments
    havoced.insert(name);
    for (size_t k = 0; k < args.size(); k++) if (args[k].k == Val::Ptr && args[k].obj && !constObj.count(args[k].obj)) {
      const Obj *o = s.co(args[k].obj); if (o && o->live && !o->ro && !o->summary) { Obj &m = s.mo(args[k].obj); m.cells.clear(); m.sl.clear(); m.bg = {{0, SegK}}; m.hasSlen = false; m.sm.clear(); m.hasZ = false; m.pv.clear(); }
    }
    if (!c->getType()->isVoidTy()) set_(s, c, freshVal(s, c->getType()));
    out.push_back(std::move(s)); return;
  }
  if (F->isVarArg() && [&] { for (auto &B : *F) for (auto &i : B) if (auto *q = dyn_cast<CallBase>(&i)) if (auto *g = q->getCalledFunction()) if (g->getName().starts_with("llvm.va_start")) return true; return false; }()) { if (!c->getType()->isVoidTy()) set_(s, c, freshVal(s, c->getType())); out.push_back(std::move(s)); return; }
  { int d = 0; for (auto &f : s.fr) if (f->F == F) d++; if (d > 3) { alarm(s, c, "recursion", "recursion deeper than analysed: " + name); return; } }
  // prune the caller frame to what is live after the call
  {
    auto &la = info(c->getFunction()).liveAfter[c]; Frame &fr = s.F();
    for (auto it = fr.env.begin(); it != fr.env.end();) if (!la.count(it->first)) it = fr.env.erase(it); else ++it;
    fr.site = c;
  }
  size_t depth = s.fr.size();
  Rets rs = callFn(std::move(s), F, args, c);
  vector<State> o;
  for (auto &r : rs) {
    State &x = r.first; if (x.dead) continue;
    for (auto &a : x.fr.back()->allocas) { auto it = x.mem.find(a.second); if (it != x.mem.end()) { x.mo(a.second).live = false; } }
    x.fr.pop_back(); (void)depth;
    if (!c->getType()->isVoidTy()) set_(x, c, r.second);
    o.push_back(std::move(x));
  }
  if (o.size() > 1) mergeStates(o, "ret");
  for (auto &x : o) out.push_back(std::move(x));
}

Rets Engine::callFn(State s, const Function *F, vector<Val> &args, const CallBase *cs) {
  analysed.insert(F->getName().str());
  auto fr = make_shared<Frame>(); fr->F = F; FnInfo &f = info(F);
  size_t k = 0; for (auto &a : F->args()) { fr->env[f.num[&a]] = k < args.size() ? args[k] : Val::top(); k++; }
  s.fr.push_back(fr);
  // byval arguments
  k = 0; for (auto &a : F->args()) {
    if (a.hasByValAttr() && k < args.size() && args[k].k == Val::Ptr && args[k].obj) {
      long n = DL.getTypeAllocSize(a.getParamByValType()); int id = newObj(s, Obj::Stack, Lin(n), &a, "byval", SegU);
      copyRange(s, id, Lin(0), args[k].obj, args[k].e, Lin(n)); s.F().allocas.push_back({&a, id}); s.F().env[f.num[&a]] = Val::P(id);
    } k++; }
  vector<EdgeState> ex; vector<State> back; Rets rets; vector<State> in; in.push_back(std::move(s));
  { // prune to live-in of entry
    auto &li = f.liveIn[&F->getEntryBlock()]; Frame &q = in[0].F();
    for (auto it = q.env.begin(); it != q.env.end();) if (!li.count(it->first)) it = q.env.erase(it); else ++it;
  }
  runRegion(nullptr, &F->getEntryBlock(), std::move(in), ex, back, rets, F);
  for (auto &r : rets) { auto &env = r.first.F().env; env.clear(); if (r.second.k == Val::Int || r.second.k == Val::Ptr) r.second.e = r.first.res(r.second.e); }
  return rets;
}

void Engine::runRegion(Loop *L, const BasicBlock *entry, vector<State> in, vector<EdgeState> &exits, vector<State> &back, Rets &rets, const Function *F) {
  FnInfo &f = info(F);
  map<int, vector<State>> pend; for (auto &x : in) pend[f.rpo[entry]].push_back(std::move(x));
  bool first = true;
  while (!pend.empty()) {
    if (outOfBudget) return;
    auto it = pend.begin(); const BasicBlock *B = f.order[it->first]; vector<State> ss = std::move(it->second); pend.erase(it);
    if (ss.size() > 1) mergeStates(ss, "join");
    vector<EdgeState> out;
    Loop *lb = f.LI->getLoopFor(B);
    bool isSub = lb && lb->getHeader() == B && lb != L;
    if (isSub && lb->getParentLoop() != L) { // entering a deeper nest: take the child of L
      while (lb->getParentLoop() != L) lb = lb->getParentLoop();
    }
    for (auto &x : ss) {
      if (isSub) runLoop(lb, std::move(x), out, rets, F);
      else runBlock(std::move(x), B, out, rets);
      if (outOfBudget) return;
    }
    for (auto &e : out) {
      if (L && e.to == L->getHeader() && (L->contains(e.from))) back.push_back(std::move(e.s));
      else if (L && !L->contains(e.to)) exits.push_back(std::move(e));
      else pend[f.rpo[e.to]].push_back(std::move(e.s));
    }
    first = false; (void)first;
  }
}

void Engine::runLoop(Loop *L, State s0, vector<EdgeState> &exits, Rets &rets, const Function *F) {
  loops++;
  LoopCtx ctx;
  auto &ec = exitCmpCache[L->getHeader()];
  if (!ec.first) { ec.first = true;
  { SmallVector<BasicBlock *, 8> eb; L->getExitingBlocks(eb);
    for (auto *b : eb) { if (auto *br = dyn_cast<BranchInst>(b->getTerminator())) if (br->isConditional()) { 
        // follow trivial boolean plumbing
        std::function<void(Value *, int)> col = [&](Value *v, int d) { if (d > 4) return; if (auto *c = dyn_cast<ICmpInst>(v)) ec.second.insert(c); else if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) col(o.get(), d + 1); } else if (auto *u = dyn_cast<Instruction>(v)) { if (u->getType()->isIntegerTy(1)) for (auto &o : u->operands()) col(o.get(), d + 1); } };
        col(br->getCondition(), 0); } } }
  }
  ctx.exitCmps = &ec.second;
  // conditions of branches inside the loop that decide about the exit block may sit one level above (&&, ||): include all comparisons in exiting blocks
  vector<State> work; work.push_back(std::move(s0)); vector<State> seen; seen.push_back(work[0]);
  vector<pair<State, int>> wide;   // widening partitions with visit counts
  vector<EdgeState> ex; Rets rr; int round = 0, concrete = 0; int exact = -1;
  while (!work.empty()) {
    if (outOfBudget) break;
    vector<State> back;
    ctx.progress = false; lctx.push_back(&ctx);
    size_t exBefore = ex.size(), rrBefore = rr.size();
    vector<State> in; in.swap(work);
    runRegion(L, L->getHeader(), std::move(in), ex, back, rr, F);
    lctx.pop_back();
    if (outOfBudget) break;
    for (auto &b : back) if (b.fr.back()->exactLoop >= 0) { exact = b.fr.back()->exactLoop; b.F().exactLoop = -1; }
    mergeStates(back, "back");
    bool conc = ctx.progress && concrete < cfg.maxConcrete;
    (void)exBefore; (void)rrBefore;
    int lim = exact >= 0 ? exact : cfg.unroll;
    if (conc) concrete++; else round++;
    for (auto &b : back) {
      compact(b);
      if (!conc && round >= lim) { fold(b, 3); }
      bool sub = false;
      for (auto &w : wide) if (leq(b, w.first)) { sub = true; break; }
      if (!sub) { int n = 0; for (auto it = seen.rbegin(); it != seen.rend() && n < 200 && !sub; ++it, ++n) if (leq(b, *it)) sub = true; }
      if (sub) continue;
      if (conc || round < lim) { seen.push_back(b); work.push_back(std::move(b)); continue; }
      bool done = false;
      for (auto &w : wide) {
        State j; bool wd = w.second >= 3;
        if (join(w.first, b, j, wd, true)) {
          if (wd) widenings++; 
          loopJoined.insert(locOf(&*L->getHeader()->getFirstNonPHIIt()));
          compact(j); if (getenv("ABSDBG")) g_zf = 0, leq(b, w.first), fprintf(stderr, "==== (zf %d) join part %ld visit %d wd %d round %d\n-- in\n%s\n-- out\n%s\n", g_zf, (long)(&w - &wide[0]), w.second, wd, round, canon(b, 0).c_str(), canon(j, 0).c_str()); w.first = j; w.second++; work.push_back(std::move(j)); done = true; 
          if (w.second > 150) { outOfBudget = true; budgetWhy = "widening did not converge at " + locOf(&*L->getHeader()->getFirstNonPHIIt()); }
          break;
        }
      }
      if (!done) { if (getenv("ABSDBG")) fprintf(stderr, "==== new partition %zu round %d\n%s\n", wide.size(), round, canon(b, 0).c_str()); wide.push_back({b, 0}); work.push_back(std::move(b)); }
    }
    if (concrete + round > 600) { outOfBudget = true; budgetWhy = "loop bound at " + locOf(&*L->getHeader()->getFirstNonPHIIt()); }
  }
  // merge exits per edge
  map<pair<const BasicBlock *, const BasicBlock *>, vector<State>> by;
  for (auto &e : ex) by[{e.from, e.to}].push_back(std::move(e.s));
  for (auto &p : by) { mergeStates(p.second, "exit"); for (auto &x : p.second) exits.push_back({p.first.first, p.first.second, std::move(x)}); }
  for (auto &r : rr) rets.push_back(std::move(r));
}

// ------------------------------------------------------------------ garbage collection / canonical form
void Engine::compact(State &s) {
  // reachability
  set<int> mark; deque<int> q;
  auto visit = [&](const Val &v) { if (v.k == Val::Ptr && v.obj && !constObj.count(v.obj) && mark.insert(v.obj).second) q.push_back(v.obj); };
  for (auto &f : s.fr) { for (auto &e : f->env) visit(e.second); for (auto &a : f->allocas) if (s.mem.count(a.second) && mark.insert(a.second).second) q.push_back(a.second); }
  for (auto &m : s.mem) if (m.second->kind == Obj::Global || (m.second->kind == Obj::Heap && m.second->live)) if (mark.insert(m.first).second) q.push_back(m.first);
  while (!q.empty()) { int id = q.front(); q.pop_front(); const Obj *o = s.co(id); if (!o) continue;
    if (!o->live) continue;
    for (auto &c : o->cells) visit(c.second.v); for (auto &x : o->sl) visit(x.v);
    for (auto &a : o->alts) for (auto &v : a.second.second) if (v.k == Val::Ptr && v.obj && !constObj.count(v.obj) && mark.insert(v.obj).second) q.push_back(v.obj); }
  for (auto it = s.mem.begin(); it != s.mem.end();) {
    if (!mark.count(it->first)) it = s.mem.erase(it);
    else { if (!it->second->live && (!it->second->cells.empty() || !it->second->sl.empty() || !it->second->pv.empty())) { Obj &o = s.mo(it->first); o.cells.clear(); o.sl.clear(); o.alts.clear(); o.pv.clear(); } ++it; }
  }
  // resolve substitutions
  std::set<int> live;
  auto add = [&](const Lin &e) { for (auto &p : e.t) live.insert(p.first); };
  auto needs = [&](const Lin &e) { for (auto &p : e.t) if (s.sub.count(p.first)) return true; return false; };
  for (size_t k = 0; k < s.fr.size(); k++) {
    bool n = false; for (auto &e : s.fr[k]->env) if (needs(e.second.e)) { n = true; break; }
    if (n) { Frame &F = s.F(k); for (auto &e : F.env) e.second.e = s.res(e.second.e); }
    for (auto &e : s.fr[k]->env) add(e.second.e);
  }
  vector<int> ids; for (auto &m : s.mem) ids.push_back(m.first);
  for (int id : ids) {
    const Obj *o = s.co(id); bool n = needs(o->size) || needs(o->slen);
    if (!n) for (auto &c : o->cells) if (needs(c.second.v.e)) { n = true; break; }
    if (!n) for (auto &x : o->sl) if (needs(x.off) || needs(x.v.e)) { n = true; break; }
    if (n) { Obj &m = s.mo(id); m.size = s.res(m.size); m.slen = s.res(m.slen); for (auto &c : m.cells) c.second.v.e = s.res(c.second.v.e); for (auto &x : m.sl) { x.off = s.res(x.off); x.v.e = s.res(x.v.e); } }
    o = s.co(id); if (!o->sm.empty()) { Obj &m = s.mo(id); for (auto &g : m.sm) { g.first = s.res(g.first); g.second = s.res(g.second); add(g.first); add(g.second); } o = s.co(id); } add(o->size); if (o->hasSlen) add(o->slen); if (o->hasZ) add(o->zfrom); for (auto &c : o->cells) add(c.second.v.e);
  }
  // content equalities: resolve, drop the ones whose source is gone or was overwritten
  for (int id : ids) { const Obj *o = s.co(id); if (o->pv.empty()) continue; Obj &m = s.mo(id); vector<Prov> k;
    for (auto &r : m.pv) { const Obj *x = getObj(s, r.src); if (!x || x->ver != r.ver) continue; r.doff = s.res(r.doff); r.n = s.res(r.n); r.soff = s.res(r.soff); bool dup = false; for (auto &q : k) if (q.src == r.src && q.doff == r.doff && q.n == r.n && q.soff == r.soff) dup = true; if (!dup) k.push_back(r); }
    m.pv = k; for (auto &r : m.pv) { add(r.doff); add(r.n); add(r.soff); } }
  // symbolic loads whose address expression is dead cannot be hit again
  for (int pass = 0; pass < 2; pass++) for (int id : ids) {
    const Obj *o = s.co(id); if (o->sl.empty()) continue; bool drop = false;
    for (auto &x : o->sl) for (auto &p : x.off.t) if (!live.count(p.first)) drop = true;
    if (pass == 0) { if (drop) { Obj &m = s.mo(id); vector<SymLoad> k; for (auto &x : m.sl) { bool d = false; for (auto &p : x.off.t) if (!live.count(p.first)) d = true; if (!d) k.push_back(x); } m.sl = k; } }
    o = s.co(id); for (auto &x : o->sl) add(x.v.e);
  }
  for (auto &m : s.mem) if (m.second->addr && live.count(m.second->addr) == 0 && m.second->addr) { /* address symbol unused */ }
  for (auto &c : s.cons) c = s.res(c); for (auto &c : s.neqs) c = s.res(c);
  { vector<BFact> k; for (auto &b : s.bf) { Lin x = s.res(Lin::sym(b.sym)); b.diff = s.res(b.diff); if (x.t.size() == 1 && x.c == 0 && x.t[0].second == 1 && live.count(x.t[0].first)) { b.sym = x.t[0].first; bool d = false; for (auto &p : b.diff.t) if (!live.count(p.first)) d = true; if (!d) k.push_back(b); } } s.bf = k; }
  // quotients about which more than their definition is known stay (projecting them would lose the holes)
  for (auto &v : s.vn) if (v.op == 1) {
    Lin a = s.res(v.a), r = s.res(v.r); if (r.t.size() != 1 || live.count(r.t[0].first) || a.t.empty()) continue;
    bool al = true; for (auto &p : a.t) if (!live.count(p.first)) al = false; if (!al) continue;
    int q = r.t[0].first; I k = v.b.c; Lin m = a - scale(r, k), d1 = State::norm(neg(m)), d2 = State::norm(m - Lin(k - 1)); bool more = false;
    for (auto &n : s.neqs) if (n.has(q)) more = true;
    for (auto &c : s.cons) if (c.has(q) && !(c == d1) && !(c == d2)) more = true;
    if (more) live.insert(q);
  }
  { vector<VN> k; for (auto &v : s.vn) { v.a = s.res(v.a); v.b = s.res(v.b); v.r = s.res(v.r); bool d = false; for (auto *l : {&v.a, &v.b, &v.r}) for (auto &p : l->t) if (!live.count(p.first)) d = true; if (!d) k.push_back(v); } s.vn = k; }
  s.sub.clear();
  // project dead symbols
  std::set<int> dead; for (auto &c : s.cons) for (auto &p : c.t) if (!live.count(p.first)) dead.insert(p.first);
  while (!dead.empty()) {
    // pick the symbol with the fewest combinations
    int best = -1; long bc = 1L << 40;
    for (int d : dead) { long pn = 0, nn = 0; for (auto &c : s.cons) { I k = c.coef(d); if (k > 0) pn++; else if (k < 0) nn++; } const Itv *v = s.citv(d); if (v->hi < POS) pn++; if (v->lo > NEG) nn++; long cst = pn * nn; if (cst < bc) { bc = cst; best = d; } }
    dead.erase(best);
    vector<Lin> P, N, K; for (auto &c : s.cons) { I k = c.coef(best); if (k > 0) P.push_back(c); else if (k < 0) N.push_back(c); else K.push_back(c); }
    const Itv *v = s.citv(best);
    if (P.size() * N.size() + P.size() + N.size() > 30 || (P.size() + N.size()) > 12) { s.cons = K; continue; }
    bool hp = false, hn = false; 
    if (v->hi < POS) { Lin c = Lin::sym(best); c.c = -v->hi; P.push_back(c); hp = true; }
    if (v->lo > NEG) { Lin c = Lin::sym(best, -1); c.c = v->lo; N.push_back(c); hn = true; }
    s.cons = K;
    for (size_t a = 0; a < P.size(); a++) for (size_t b = 0; b < N.size(); b++) {
      if (hp && hn && a + 1 == P.size() && b + 1 == N.size()) continue;
      I ka = P[a].coef(best), kb = -N[b].coef(best); I g = igcd(ka, kb);
      if (ka / g > 100000 || kb / g > 100000) continue;
      Lin r = State::norm(scale(P[a], kb / g) + scale(N[b], ka / g));
      if (r.t.size() > 6) continue;
      bool big = false; for (auto &p : r.t) if (iabs(p.second) > (1 << 20)) big = true; if (big) continue;
      if (!s.addLe(r)) return;
    }
    dead.clear(); for (auto &c : s.cons) for (auto &p : c.t) if (!live.count(p.first)) dead.insert(p.first);
  }
  if (!s.sub.empty()) { compact(s); return; }
  { vector<Lin> k; for (auto &n : s.neqs) { bool d = false; for (auto &p : n.t) if (!live.count(p.first)) d = true; if (!d && !n.isConst()) k.push_back(n); } s.neqs = k; }
  vector<pair<int, Itv>> ns; for (auto &x : s.syms) if (live.count(x.first)) ns.push_back(x); s.syms = ns;
  // drop redundant two-sided duplicates
  { std::set<Lin> u; vector<Lin> k; for (auto &c : s.cons) { Itv b = s.bounds(c); if (b.hi <= 0) continue; if (u.insert(c).second) k.push_back(c); } s.cons = k; }
}

// mode 0: exact; 1: constants exact, symbols anonymous, no constraints; 2: ghost constants exact only
struct Sink { // 128-bit digest of the canonical form (its text with ABSDBG)
  uint64_t a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full; bool txt; string t;
  Sink() { static bool d = getenv("ABSDBG") != nullptr; txt = d; }
  void w(uint64_t x) { a = (a ^ x) * 0xff51afd7ed558ccdull; a ^= a >> 32; b = (b + x) * 0x9fb21c651e98df25ull; b ^= b >> 29; }
  void operator+=(char c) { if (txt) t += c; else w((unsigned char)c + 0x100); }
  void operator+=(const char *c) { if (txt) t += c; else while (*c) w((unsigned char)*c++ + 0x100); }
  void operator+=(const string &c) { if (txt) t += c; else { for (char x : c) w((unsigned char)x + 0x100); w(c.size()); } }
  void n(__int128 x) { if (txt) t += istr((I)x); else { w((uint64_t)x ^ 0x5bd1e995u); w((uint64_t)(x >> 64)); } }
  string str() { if (txt) return t; return string((const char *)&a, 8) + string((const char *)&b, 8); }
};
string Engine::canon(State &s, int mode) {
  Sink o; map<int, int> sy, ob; deque<int> q;
  auto symn = [&](int x) { auto it = sy.find(x); if (it != sy.end()) return it->second; int n = sy.size(); sy[x] = n; return n; };
  auto lin = [&](const Lin &e, bool ghost) {
    if (mode == 0) { for (auto &p : e.t) { o.n((__int128)(I)(p.second)); o += 's'; o.n((__int128)(symn(p.first))); } o += '+'; o.n((__int128)(I)(e.c)); }
    else if (mode == 1) { if (e.isConst()) o.n((__int128)(I)(e.c)); else o += 'S'; }
    else { if (ghost && e.isConst()) o.n((__int128)(I)(e.c)); else o += 'S'; }
  };
  auto obn = [&](int id) { if (!id) return 0; if (constObj.count(id)) return -id; auto it = ob.find(id); if (it != ob.end()) return it->second; int n = ob.size() + 1; ob[id] = n; q.push_back(id); return n; };
  auto val = [&](const Val &v, bool g) {
    switch (v.k) { case Val::Undef: o += 'u'; break; case Val::Top: o += 't'; break; case Val::Fn: o += 'f'; o.n((__int128)(sid(v.f))); break;
    case Val::Int: lin(v.e, g); break; case Val::Ptr: o += 'p'; o.n((__int128)(obn(v.obj))); o += '@'; lin(v.e, g); } };
  for (auto &f : s.fr) { o += "F"; o.n((__int128)(sid(f->F))); o.n((__int128)(sid(f->site))); for (auto &e : f->env) { o += ';'; o.n((__int128)(e.first)); o += '='; val(e.second, false); }
    for (auto &a : f->allocas) if (s.mem.count(a.second)) { o += 'A'; o.n((__int128)(obn(a.second))); } }
  for (auto &m : s.mem) if (m.second->kind == Obj::Global) obn(m.first);
  auto drain = [&]() { while (!q.empty()) { int id = q.front(); q.pop_front(); const Obj *p = s.co(id); if (!p) continue;
    o += "\nO"; o.n((__int128)(ob[id])); o += char('0' + p->kind); o += p->live ? 'L' : 'D'; if (p->summary) o += 'M'; o.n((__int128)(p->tag)); o.n((__int128)(sid(p->site))); lin(p->size, false);
    if (p->kind == Obj::Global) o.n((__int128)(id));
    if (!p->live) continue;
    for (auto &g : p->bg) { o += 'b'; o.n((__int128)(size_t)(g.s)); o += char('0' + g.k); }
    if (p->hasSlen) { o += 'l'; lin(p->slen, false); }
    for (auto &g : p->sm) { o += 'm'; lin(g.first, false); lin(g.second, false); }
    if (p->hasZ) { o += 'z'; lin(p->zfrom, false); }
    for (auto &c : p->cells) { o += ','; o.n((__int128)(c.first)); o += ':'; o.n((__int128)(c.second.sz)); o += '='; val(c.second.v, p->ghost); }
    if (mode == 0) for (auto &x : p->pv) { o += '^'; lin(x.doff, false); lin(x.n, false); o.n((__int128)(obn(x.src))); lin(x.soff, false); }
    if (mode == 0) for (auto &x : p->sl) { o += '~'; lin(x.off, false); o += ':'; o.n((__int128)(x.sz)); val(x.v, false); }
    for (auto &a : p->alts) { o += '%'; o.n((__int128)(a.first)); for (auto &v : a.second.second) { o += char('0' + v.k); o.n((__int128)(obn(v.obj))); if (mode != 2) { o.n((__int128)(I)(v.lo)); o += '.'; o.n((__int128)(I)(v.hi)); } } }
  } };
  drain();
  for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !ob.count(m.first)) { o += "\nX"; obn(m.first); drain(); }
  if (mode == 0) {
    vector<string> cs;
    auto rl = [&](const Lin &e) { vector<pair<int, I>> t; for (auto &p : e.t) t.push_back({symn(p.first), p.second}); std::sort(t.begin(), t.end()); string r; for (auto &p : t) { r += istr(p.second); r += 's'; r += std::to_string(p.first); } return r + "+" + istr(e.c); };
    for (auto &c : s.cons) cs.push_back(rl(c)); for (auto &n : s.neqs) { string a = rl(n), b = rl(neg(n)); cs.push_back("!" + std::min(a, b)); }
    for (auto &b : s.bf) cs.push_back("B" + std::to_string(symn(b.sym)) + rl(b.diff));
    for (auto &v : s.vn) if (v.op != 1) cs.push_back("V" + std::to_string(v.op) + rl(v.a) + "," + rl(v.b) + "," + rl(v.r));
    std::sort(cs.begin(), cs.end()); for (auto &c : cs) { o += '\n'; o += c; }
    vector<pair<int, int>> sv; for (auto &p : sy) sv.push_back({p.second, p.first}); std::sort(sv.begin(), sv.end());
    for (auto &p : sv) { const Itv *v = s.citv(p.second); o += '['; if (v) { o.n((__int128)(I)(v->lo)); o += ','; o.n((__int128)(I)(v->hi)); } }
  }
  return o.str();
}

void Engine::mergeStates(vector<State> &v, const char *where) {
  if (v.size() < 2) return;
  merges++;
  std::map<string, size_t> idx; vector<State> r;
  for (auto &x : v) { if (x.dead) continue; compact(x); if (x.dead) continue; string c = canon(x, 0); if (idx.emplace(std::move(c), r.size()).second) r.push_back(std::move(x)); }
  v.swap(r);
  if ((int)v.size() > cfg.groupCap) {
    std::map<string, vector<size_t>> g; for (size_t k = 0; k < v.size(); k++) g[canon(v[k], 1)].push_back(k);
    vector<State> o;
    for (auto &p : g) {
      if ((int)p.second.size() <= cfg.groupCap) { for (size_t k : p.second) o.push_back(std::move(v[k])); continue; }
      // cheap inclusion first
      vector<State> keep;
      for (size_t k : p.second) { bool sub = false; for (auto &w : keep) if (leq(v[k], w)) { sub = true; break; } if (!sub) keep.push_back(std::move(v[k])); }
      if ((int)keep.size() <= cfg.groupCap) { for (auto &x : keep) o.push_back(std::move(x)); continue; }
      State acc = keep[0];
      for (size_t k = 1; k < keep.size(); k++) { State j; if (join(acc, keep[k], j, false, false)) { joins++; compact(j); acc = std::move(j); } else o.push_back(keep[k]); }
      o.push_back(std::move(acc));
    }
    v.swap(o);
  }
  if ((int)v.size() > cfg.totalCap) {
    std::map<string, vector<size_t>> g; for (size_t k = 0; k < v.size(); k++) g[canon(v[k], 2)].push_back(k);
    vector<State> o;
    for (auto &p : g) {
      State acc = v[p.second[0]];
      for (size_t k = 1; k < p.second.size(); k++) { State j; if (join(acc, v[p.second[k]], j, false, true)) { joins++; compact(j); acc = std::move(j); } else o.push_back(v[p.second[k]]); }
      o.push_back(std::move(acc));
    }
    v.swap(o);
    if ((int)v.size() > 20 * cfg.totalCap) { outOfBudget = true; budgetWhy = string("state explosion at ") + where; }
  }
}

// ------------------------------------------------------------------ pairing of two states
int g_zf = 0;
bool Engine::zip(State &A, State &B, bool cs, vector<ZSlot> &slots, bool fj) {
  if (A.fr.size() != B.fr.size()) return (g_zf = __LINE__ * 1000 + 1, false);
  map<int, int> a2b, b2a; deque<pair<int, int>> q; vector<pair<int, int>> pvq;
  auto po = [&](int a, int b) -> bool {
    if (a == 0 || b == 0 || constObj.count(a) || constObj.count(b)) return a == b;
    auto it = a2b.find(a); if (it != a2b.end()) return it->second == b;
    if (b2a.count(b)) return (g_zf = __LINE__ * 1000 + 2, false);
    a2b[a] = b; b2a[b] = a; q.push_back({a, b}); return true;
  };
  auto zl = [&](Lin &x, const Lin &y, int w, bool ghost) -> bool {
    if (x != y) { bool c = x.isConst() || y.isConst(); if (c && (ghost || !cs)) { if (fj) return (g_zf = __LINE__ * 1000 + 3, false); if (x.isConst() && y.isConst()) return (g_zf = __LINE__ * 1000 + 4, false); } }
    slots.push_back({&x, x, y, w}); return true;
  };
  auto zv = [&](Val &x, const Val &y, int w, bool ghost) -> bool {
    if (x.k != y.k) { if (!fj && x.k == Val::Top) return true; return (g_zf = __LINE__ * 1000 + 5, false); }
    if (x.k == Val::Int) return zl(x.e, y.e, w, ghost);
    if (x.k == Val::Ptr) { if (!po(x.obj, y.obj)) return (g_zf = __LINE__ * 1000 + 6, false); return zl(x.e, y.e, 0, ghost); }
    if (x.k == Val::Fn) return x.f == y.f;
    return true;
  };
  for (size_t k = 0; k < A.fr.size(); k++) {
    if (A.fr[k]->F != B.fr[k]->F || A.fr[k]->site != B.fr[k]->site) return (g_zf = __LINE__ * 1000 + 7, false);
    Frame &F = fj ? A.F(k) : const_cast<Frame &>(*A.fr[k]); const Frame &G = *B.fr[k];
    for (auto it = F.env.begin(); it != F.env.end();) {
      auto g = G.env.find(it->first); if (g == G.env.end()) { if (fj) { it = F.env.erase(it); continue; } return (g_zf = __LINE__ * 1000 + 8, false); }
      auto *vv = info(F.F).byNum[it->first]; int w = vv->getType()->isIntegerTy() ? vv->getType()->getIntegerBitWidth() : 0;
      if (!zv(it->second, g->second, w, false)) return (g_zf = __LINE__ * 1000 + 9, false); ++it;
    }
    vector<int> aa, bb; vector<const Value *> va, vb;
    for (auto &x : F.allocas) if (A.mem.count(x.second)) { aa.push_back(x.second); va.push_back(x.first); }
    for (auto &x : G.allocas) if (B.mem.count(x.second)) { bb.push_back(x.second); vb.push_back(x.first); }
    if (va != vb) return (g_zf = __LINE__ * 1000 + 10, false);
    for (size_t z = 0; z < aa.size(); z++) if (!po(aa[z], bb[z])) return (g_zf = __LINE__ * 1000 + 11, false);
  }
  for (auto &m : A.mem) if (m.second->kind == Obj::Global) { if (!B.mem.count(m.first)) return (g_zf = __LINE__ * 1000 + 12, false); if (!po(m.first, m.first)) return (g_zf = __LINE__ * 1000 + 13, false); }
  auto drain = [&]() -> bool {
    while (!q.empty()) {
      auto p = q.front(); q.pop_front();
      const Obj *b = B.co(p.second); if (!b || !A.co(p.first)) return (g_zf = __LINE__ * 1000 + 14, false);
      if (A.mem[p.first] == B.mem[p.second] && p.first == p.second) {
        // identical object: register its symbols as unchanged, pair its pointees
        const Obj *a = A.co(p.first);
        auto reg = [&](const Lin &e) { if (!e.isConst()) slots.push_back({nullptr, e, e, 0}); };
        reg(a->size); for (auto &g : a->sm) { reg(g.first); reg(g.second); } if (a->hasSlen) reg(a->slen); if (a->hasZ) reg(a->zfrom);
        for (auto &c : a->cells) { if (c.second.v.k == Val::Int) reg(c.second.v.e); if (c.second.v.k == Val::Ptr) { if (!po(c.second.v.obj, c.second.v.obj)) return (g_zf = __LINE__ * 1000 + 15, false); reg(c.second.v.e); } }
        for (auto &al : a->alts) for (auto &v : al.second.second) if (v.k == Val::Ptr && !po(v.obj, v.obj)) return (g_zf = __LINE__ * 1000 + 16, false);
        if (fj && !a->sl.empty()) A.mo(p.first).sl.clear();
        pvq.push_back(p);
        continue;
      }
      Obj &a = fj ? A.mo(p.first) : const_cast<Obj &>(*A.co(p.first));
      if (a.kind != b->kind || a.live != b->live || a.summary != b->summary || a.tag != b->tag || a.site != b->site) return (g_zf = __LINE__ * 1000 + 17, false);
      if (!zl(a.size, b->size, 0, false)) return (g_zf = __LINE__ * 1000 + 18, false);
      if (!a.live) continue;
      if (a.summary) {
        if (fj) { for (auto &x : b->alts) for (auto v : x.second.second) { AVal w = v; if (v.k == Val::Ptr && v.obj && !constObj.count(v.obj)) { auto it = b2a.find(v.obj); if (it == b2a.end()) { if (!A.mem.count(v.obj) || a2b.count(v.obj)) return (g_zf = __LINE__ * 1000 + 19, false); if (!po(v.obj, v.obj)) return (g_zf = __LINE__ * 1000 + 20, false); } else w.obj = it->second; }
              auto &c = a.alts[x.first]; if (c.second.empty()) c.first = x.second.first; if (c.first != x.second.first) { c.second = {AVal{Val::Top, 0, 0, 0, nullptr}}; continue; }
              bool f = false; for (auto &y : c.second) { if (y == w) { f = true; break; } if (y.k == w.k && (y.k == Val::Int || (y.k == Val::Ptr && y.obj == w.obj))) { y.lo = std::min(y.lo, w.lo); y.hi = std::max(y.hi, w.hi); if (y.k == Val::Int) { y.lo = y.lo < -65536 ? (y.lo < -pow2_31() ? NEG : -pow2_31()) : y.lo; y.hi = y.hi > 70000 ? (y.hi < pow2_31() * 2 ? pow2_31() * 2 - 1 : (I)1 << 64) : y.hi; } f = true; break; } }
              if (!f) c.second.push_back(w); }
        } else {
          for (auto &x : b->alts) { auto c = a.alts.find(x.first); if (c == a.alts.end() || c->second.first != x.second.first) return (g_zf = __LINE__ * 1000 + 21, false);
            for (auto &v : x.second.second) { bool f = false; for (auto &y : c->second.second) { if (y.k != v.k) continue; if (y.k == Val::Ptr) { if (v.obj && !constObj.count(v.obj)) { auto it = b2a.find(v.obj); if (it == b2a.end()) { if (!po(y.obj, v.obj)) continue; } else if (it->second != y.obj) continue; } else if (y.obj != v.obj) continue; } if (y.k == Val::Fn && y.f != v.f) continue; if (y.lo <= v.lo && y.hi >= v.hi) { f = true; break; } } if (!f) return (g_zf = __LINE__ * 1000 + 22, false); } }
        }
        continue;
      }
      // cells
      std::set<long> keys; for (auto &c : a.cells) keys.insert(c.first); for (auto &c : b->cells) keys.insert(c.first);
      for (long k : keys) {
        auto ca = a.cells.find(k); auto cb = b->cells.find(k);
        if (ca != a.cells.end() && cb != b->cells.end() && ca->second.sz == cb->second.sz) {
          if (ca->second.v.k != cb->second.v.k && fj && (ca->second.v.k == Val::Undef || cb->second.v.k == Val::Undef || ca->second.v.k == Val::Top || cb->second.v.k == Val::Top) && !a.ghost) {
            int sz = ca->second.sz; a.cells.erase(ca); a.setBg(k, k + sz, SegK); continue; }
          if (!zv(ca->second.v, cb->second.v, ca->second.sz * 8, a.ghost)) return (g_zf = __LINE__ * 1000 + 23, false); continue;
        }
        if (ca != a.cells.end()) {
          int sz = ca->second.sz; bool ov = false; for (auto &x : b->cells) if (x.first < k + sz && x.first + x.second.sz > k) ov = true;
          int bgk = ov ? -1 : b->bgRange(k, k + sz);
          if (bgk == SegZ && (ca->second.v.k == Val::Int)) { if (!zl(ca->second.v.e, Lin(0), sz * 8, a.ghost)) return (g_zf = __LINE__ * 1000 + 24, false); continue; }
          if (bgk == SegZ && ca->second.v.k == Val::Ptr) { if (ca->second.v.isNull()) continue; return (g_zf = __LINE__ * 1000 + 25, false); }
          if (!fj) return (g_zf = __LINE__ * 1000 + 26, false);
          if (ca->second.v.k == Val::Ptr) return (g_zf = __LINE__ * 1000 + 27, false);
          a.cells.erase(ca); a.setBg(k, k + sz, SegK); continue;
        }
        // only in b
        int sz = cb->second.sz; bool ov = false; for (auto &x : a.cells) if (x.first < k + sz && x.first + x.second.sz > k) ov = true;
        int bgk = ov ? -1 : a.bgRange(k, k + sz);
        if (!fj) {
          if (bgk == SegK) { continue; }
          if (bgk == SegZ) { if (cb->second.v.isNull()) continue; if (cb->second.v.k == Val::Int) { static Lin Z0; Z0 = Lin(0); slots.push_back({nullptr, Lin(0), cb->second.v.e, sz * 8}); continue; } }
          return (g_zf = __LINE__ * 1000 + 28, false);
        }
        if (bgk == SegZ && cb->second.v.k == Val::Int) { a.cells[k] = {sz, Val::I_(Lin(0))}; if (!zl(a.cells[k].v.e, cb->second.v.e, sz * 8, a.ghost)) return (g_zf = __LINE__ * 1000 + 29, false); continue; }
        if (bgk == SegZ && cb->second.v.isNull()) { continue; }
        if (cb->second.v.k == Val::Ptr) return (g_zf = __LINE__ * 1000 + 30, false);
        if (ov) { vector<long> rm; for (auto &x : a.cells) if (x.first < k + sz && x.first + x.second.sz > k) { if (x.second.v.k == Val::Ptr) return (g_zf = __LINE__ * 1000 + 31, false); rm.push_back(x.first); a.setBg(x.first, x.first + x.second.sz, SegK); } for (long r : rm) a.cells.erase(r); }
        a.setBg(k, k + sz, SegK);
      }
      // background
      if (!(a.bg == b->bg)) {
        std::set<long> pts; for (auto &x : a.bg) pts.insert(x.s); for (auto &x : b->bg) pts.insert(x.s);
        vector<long> pv(pts.begin(), pts.end());
        for (size_t z = 0; z < pv.size(); z++) {
          uint8_t ka = a.bgAt(pv[z]), kb = b->bgAt(pv[z]); if (ka == kb) continue;
          long e = z + 1 < pv.size() ? pv[z + 1] : -1;
          // entirely covered by cells ?
          if (e > 0) { long pos = pv[z]; bool cov = true; while (pos < e && cov) { auto it = a.cells.upper_bound(pos); if (it == a.cells.begin()) { cov = false; break; } --it; if (it->first + it->second.sz <= pos) { cov = false; break; } pos = it->first + it->second.sz; } if (cov) continue; }
          if (fj) a.setBg(pv[z], e, SegK); else if (ka != SegK) return (g_zf = __LINE__ * 1000 + 32, false);
        }
      }
      if (a.hasZ && b->hasZ) { if (!zl(a.zfrom, b->zfrom, 0, false)) return (g_zf = __LINE__ * 1000 + 35, false); }
      else if (a.hasZ) { if (fj) a.hasZ = false; else return (g_zf = __LINE__ * 1000 + 36, false); }
      if (fj && a.sm.size() != b->sm.size()) a.sm.clear();
      if (!fj && a.sm.size() > b->sm.size()) return (g_zf = __LINE__ * 1000 + 37, false);
      for (size_t z = 0; z < a.sm.size(); z++) if (!zl(a.sm[z].first, b->sm[z].first, 0, false) || !zl(a.sm[z].second, b->sm[z].second, 0, false)) return (g_zf = __LINE__ * 1000 + 38, false);
      if (a.hasSlen && b->hasSlen) { if (!zl(a.slen, b->slen, 0, false)) return (g_zf = __LINE__ * 1000 + 33, false); }
      else if (a.hasSlen) { if (fj) a.hasSlen = false; else return (g_zf = __LINE__ * 1000 + 34, false); }
      if (fj) a.sl.clear();
      pvq.push_back(p);
    }
    return true;
  };
  if (!drain()) return (g_zf = __LINE__ * 1000 + 35, false);
  // unreachable (leaked) heap blocks
  vector<int> ua, ub; for (auto &m : A.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary && !a2b.count(m.first)) ua.push_back(m.first);
  for (auto &m : B.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary && !b2a.count(m.first)) ub.push_back(m.first);
  if (ua.size() != ub.size()) return (g_zf = __LINE__ * 1000 + 36, false);
  for (size_t k = 0; k < ua.size(); k++) if (!po(ua[k], ub[k])) return (g_zf = __LINE__ * 1000 + 37, false);
  if (!drain()) return (g_zf = __LINE__ * 1000, false);
  // content equalities
  for (auto &p : pvq) {
    const Obj *ca = A.co(p.first), *b = B.co(p.second); if (ca->pv.empty()) continue;
    auto match = [&](const Prov &x, const Prov &y) { if (constObj.count(x.src) || constObj.count(y.src)) return x.src == y.src; auto it = a2b.find(x.src); return it != a2b.end() && it->second == y.src; };
    vector<char> used(b->pv.size(), 0);
    if (fj) {
      Obj &a = A.mo(p.first); vector<pair<Prov, int>> keep;
      for (auto &x : a.pv) for (size_t z = 0; z < b->pv.size(); z++) if (!used[z] && match(x, b->pv[z])) { used[z] = 1; keep.push_back({x, (int)z}); break; }
      a.pv.clear(); for (auto &k : keep) a.pv.push_back(k.first);
      for (size_t z = 0; z < keep.size(); z++) { auto &x = a.pv[z]; auto &y = b->pv[keep[z].second]; slots.push_back({&x.doff, x.doff, y.doff, 0}); slots.push_back({&x.n, x.n, y.n, 0}); slots.push_back({&x.soff, x.soff, y.soff, 0}); }
    } else {
      for (auto &x : ca->pv) { bool f = false; for (size_t z = 0; z < b->pv.size(); z++) if (!used[z] && match(x, b->pv[z])) { auto &y = b->pv[z]; used[z] = 1; slots.push_back({nullptr, x.doff, y.doff, 0}); slots.push_back({nullptr, x.n, y.n, 0}); slots.push_back({nullptr, x.soff, y.soff, 0}); f = true; break; } if (!f) return (g_zf = __LINE__ * 1000, false); }
    }
  }
  return true;
}

// ------------------------------------------------------------------ inclusion  B <= W
bool Engine::leq(State &B, State &W) {
  if ((++steps & 255) == 0 && elapsed() > cfg.timeLimit) { outOfBudget = true; budgetWhy = "time"; }
  if (outOfBudget) return true;
  bool r = leq1(B, W);
  // symbols that occur in no slot of their own cannot be matched one by one: compare the canonical forms instead
  if (!r && g_zf / 1000 >= 1000000) { compact(B); State w = W; compact(w); r = canon(B, 0) == canon(w, 0); }
  return r;
}
bool Engine::leq1(State &B, State &W) {
  vector<ZSlot> sl; if (!zip(W, B, true, sl, false)) return (g_zf = __LINE__ * 1000 + 38, false);
  map<int, Lin> m; auto ap = [&](const Lin &e, bool &ok) { Lin r(e.c); for (auto &p : e.t) { auto it = m.find(p.first); if (it == m.end()) { ok = false; return r; } r = addmul(r, it->second, p.second); } return r; };
  vector<char> used(sl.size(), 0); bool prog = true;
  // a slot that holds an unconstrained full-range symbol of its own includes every value (values are taken modulo 2^w)
  { map<int, int> occ; for (auto &x : sl) for (auto &p : x.a.t) occ[p.first]++; for (auto &c : W.cons) for (auto &p : c.t) occ[p.first] += 2; for (auto &c : W.neqs) for (auto &p : c.t) occ[p.first] += 2; for (auto &b : W.bf) { occ[b.sym] += 2; for (auto &p : b.diff.t) occ[p.first] += 2; }
    for (auto &o : W.mem) for (auto &x : o.second->sl) { for (auto &p : x.off.t) occ[p.first] += 2; for (auto &p : x.v.e.t) occ[p.first] += 2; }
    for (size_t k = 0; k < sl.size(); k++) if (sl[k].w >= 8 && sl[k].a.t.size() == 1 && iabs(sl[k].a.t[0].second) == 1 && occ[sl[k].a.t[0].first] == 1) { const Itv *v = W.citv(sl[k].a.t[0].first); if (v && v->hi - v->lo >= (((I)1) << sl[k].w) - 1) used[k] = 1; } }
  while (prog) {
    prog = false;
    for (size_t k = 0; k < sl.size(); k++) if (!used[k]) {
      int un = 0, us = -1; I uc = 0; for (auto &p : sl[k].a.t) if (!m.count(p.first)) { un++; us = p.first; uc = p.second; }
      if (un == 1 && iabs(uc) == 1) { Lin rest(sl[k].a.c); for (auto &p : sl[k].a.t) if (p.first != us) rest = addmul(rest, m[p.first], p.second); m[us] = scale(B.res(sl[k].b) - rest, uc); used[k] = 1; prog = true; }
    }
    // several unknowns in one slot: pair the terms by coefficient
    if (!prog) for (size_t k = 0; k < sl.size() && !prog; k++) if (!used[k]) {
      vector<pair<int, I>> un; Lin rest = B.res(sl[k].b); rest.c -= sl[k].a.c;
      for (auto &p : sl[k].a.t) { auto it = m.find(p.first); if (it == m.end()) un.push_back(p); else rest = addmul(rest, it->second, -p.second); }
      if (un.size() < 2 || rest.t.size() != un.size()) continue;
      map<int, Lin> add; vector<char> tk(rest.t.size(), 0); bool ok = true;
      for (auto &u : un) { int f = -1; for (size_t z = 0; z < rest.t.size(); z++) if (!tk[z] && rest.t[z].first == u.first && rest.t[z].second == u.second) f = z; if (f < 0) for (size_t z = 0; z < rest.t.size(); z++) if (!tk[z] && rest.t[z].second == u.second) { f = z; break; } if (f < 0) { ok = false; break; } tk[f] = 1; add[u.first] = Lin::sym(rest.t[f].first); if (u.second == 1 || u.second == -1) {} }
      if (!ok) continue;
      if (rest.c != 0) { bool done = false; for (auto &u : un) if (iabs(u.second) == 1) { add[u.first].c = rest.c * u.second; done = true; break; } if (!done) continue; }
      for (auto &x : add) m[x.first] = x.second; used[k] = 1; prog = true;
    }
  }
  for (auto &v : W.vn) if (v.op == 1 && v.r.t.size() == 1 && v.r.c == 0 && v.r.t[0].second == 1 && !m.count(v.r.t[0].first)) { bool ok = true; Lin a = ap(v.a, ok); if (!ok) continue; a = B.res(a); for (auto &x : B.vn) if (x.op == 1 && x.b == v.b && B.res(x.a) == a) { m[v.r.t[0].first] = B.res(x.r); break; } }
  for (size_t k = 0; k < sl.size(); k++) if (!used[k]) { bool ok = true; Lin e = ap(sl[k].a, ok); if (!ok) return (g_zf = 1000000000 + __LINE__ * 1000 + 39, false); Lin d = B.res(e - sl[k].b); if (d.isConst()) { if (d.c != 0) return (g_zf = __LINE__ * 1000 + 40, false); continue; } if (!(B.entLe(d) && B.entLe(neg(d)))) return (g_zf = __LINE__ * 1000 + 41, false); }
  for (auto &x : W.syms) { auto it = m.find(x.first); if (it == m.end()) continue; if (x.second.lo > NEG && !B.entLe(Lin(x.second.lo) - it->second)) return (g_zf = __LINE__ * 1000 + 42, false); if (x.second.hi < POS && !B.entLe(it->second - Lin(x.second.hi))) return (g_zf = __LINE__ * 1000 + 43, false); }
  for (auto &c : W.cons) { bool ok = true; Lin e = ap(c, ok); if (!ok) return (g_zf = __LINE__ * 1000 + 44, false); if (!B.entLe(e)) return (g_zf = __LINE__ * 1000 + 45, false); }
  for (auto &c : W.neqs) { bool ok = true; Lin e = ap(c, ok); if (!ok) return (g_zf = __LINE__ * 1000 + 46, false); if (B.decEq(e) != 0) return (g_zf = __LINE__ * 1000 + 47, false); }
  for (auto &b : W.bf) { bool ok = true; auto it = m.find(b.sym); if (it == m.end()) return (g_zf = __LINE__ * 1000 + 48, false); Lin d = ap(b.diff, ok); if (!ok) return (g_zf = __LINE__ * 1000 + 49, false); bool f = false; if (it->second.t.size() == 1 && it->second.c == 0) for (auto &x : B.bf) if (x.sym == it->second.t[0].first && B.res(x.diff) == B.res(d)) f = true; if (!f) { if (it->second.isConst() ? (it->second.c == 0 ? (B.entLe(d) && B.entLe(neg(d))) : B.entLe(addc(d, 1))) : (B.isNonZero(it->second) && B.entLe(addc(d, 1)))) continue; return (g_zf = __LINE__ * 1000 + 50, false); } }
  for (auto &v : W.vn) if (v.op != 1) { bool ok = true; Lin a = ap(v.a, ok), b = ap(v.b, ok), r = ap(v.r, ok); if (!ok) return (g_zf = __LINE__ * 1000 + 51, false); a = B.res(a); b = B.res(b); r = B.res(r); bool f = false; for (auto &x : B.vn) if (x.op == v.op && B.res(x.a) == a && B.res(x.b) == b && B.res(x.r) == r) { f = true; break; } if (!f) return (g_zf = __LINE__ * 1000 + 52, false); }
  return true;
}

// ------------------------------------------------------------------ join / widening
struct Rat { I n = 0, d = 1; };
static Rat rn(I a, I b) { if (b < 0) { a = -a; b = -b; } I g = igcd(a, b); if (g == 0) g = 1; return Rat{a / g, b / g}; }
static Rat rsub(Rat a, Rat b) { return rn(a.n * b.d - b.n * a.d, a.d * b.d); }
static Rat rmul(Rat a, Rat b) { return rn(a.n * b.n, a.d * b.d); }
static Rat rdiv(Rat a, Rat b) { return rn(a.n * b.d, a.d * b.n); }

bool Engine::join(State &A, State &B, State &R, bool widen, bool cs) {
  R = A; for (auto &f : R.fr) f = make_shared<Frame>(*f);
  // objects keep sharing: zip clones on write
  vector<ZSlot> sl; if (!zip(R, B, cs, sl, true)) return false;
  // (pointers into containers stay valid: cells are only erased/added before their own zip)
  // re-collect the slots because erasing cells may have invalidated pointers
  struct Co { int sym; Lin a, b; int w; bool fresh; };
  vector<Co> co; map<int, int> keep;       // unchanged symbols
  vector<ZSlot *> chg; map<pair<Lin, Lin>, int> uniq; 
  for (auto &x : sl) if (x.a == x.b) for (auto &p : x.a.t) keep[p.first] = 1;
  R.syms.clear(); R.cons.clear(); R.neqs.clear(); R.sub.clear(); R.vn.clear();
  // unchanged coordinates
  map<int, int> ci;
  for (auto &k : keep) {
    const Itv *va = A.citv(k.first), *vb = B.citv(k.first); Itv x; 
    if (va && vb) { x.lo = std::min(va->lo, vb->lo); x.hi = std::max(va->hi, vb->hi); }
    if (widen && va && vb) { if (vb->lo < va->lo) x.lo = vb->lo; }
    R.syms.push_back({k.first, x});
    ci[k.first] = co.size(); co.push_back({k.first, Lin::sym(k.first), Lin::sym(k.first), 0, false});
  }
  static const vector<I> TH = {0, 1, 2, 3, 4, 7, 8, 12, 13, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 268, 269, 511, 512, 1023, 1024, 1151, 1152, 4095, 4096, 65535, 65536, 65804, ((I)1 << 20), ((I)1 << 31) - 1, ((I)1 << 32) - 1, ((I)1 << 40), ((I)1 << 63) - 1, ((I)1 << 64) - 1};
  auto widenItv = [&](Itv o, Itv n, int w) {
    Itv r = o;
    if (n.lo < o.lo) { r.lo = NEG; for (auto t = TH.rbegin(); t != TH.rend(); ++t) if (*t <= n.lo) { r.lo = *t; break; } if (n.lo < 0) { r.lo = n.lo >= -1 ? -1 : (n.lo >= -256 ? -256 : (n.lo >= -((I)1 << 31) ? -((I)1 << 31) : NEG)); } }
    if (n.hi > o.hi) { r.hi = POS; for (auto t : TH) if (t >= n.hi) { r.hi = t; break; } }
    (void)w; return r;
  };
  for (auto &x : sl) if (x.a != x.b) {
    auto key = std::make_pair(x.a, x.b); auto it = uniq.find(key); int id;
    if (it != uniq.end()) id = it->second;
    else {
      Itv ia = A.bounds(x.a), ib = B.bounds(x.b);
      { I t = A.lpUb(x.a); if (t < ia.hi) ia.hi = t; t = A.lpLb(x.a); if (t > ia.lo) ia.lo = t; t = B.lpUb(x.b); if (t < ib.hi) ib.hi = t; t = B.lpLb(x.b); if (t > ib.lo) ib.lo = t; }
      Itv h; h.lo = std::min(ia.lo, ib.lo); h.hi = std::max(ia.hi, ib.hi);
      if (widen) h = widenItv(ia, h, x.w);
      id = ++g_nextSym; uniq[key] = id;
      bool wrap = false;
      if (x.w >= 8 && x.w <= 64) { I lo = -(((I)1) << (x.w - 1)), hi = (((I)1) << x.w) - 1; if (h.lo < lo || h.hi > hi || h.hi - h.lo > hi) { h.lo = lo; h.hi = (((I)1) << (x.w - 1)) - 1; wrap = true; } }
      R.syms.push_back({id, h});
      ci[id] = co.size(); co.push_back({id, x.a, x.b, wrap ? -1 : x.w, true});
    }
    if (x.dst) *x.dst = Lin::sym(id);
  }
  // singletons
  // ---- equalities (affine hull)
  std::set<int> rel; // symbols of A/B that occur in changed slots
  for (auto &c : co) if (c.fresh) { for (auto &p : c.a.t) rel.insert(p.first); for (auto &p : c.b.t) rel.insert(p.first); }
  vector<int> V; for (size_t k = 0; k < co.size(); k++) if (co[k].w >= 0 && (co[k].fresh || rel.count(co[k].sym))) V.push_back(k);
  map<int, Lin> eqs;
  if (!V.empty() && V.size() <= 40) {
    vector<vector<Rat>> D; int n = V.size();
    std::set<int> pa, pb; for (int v : V) { for (auto &p : co[v].a.t) pa.insert(p.first); for (auto &p : co[v].b.t) pb.insert(p.first); }
    for (int s : pa) { vector<Rat> d(n); for (int k = 0; k < n; k++) d[k] = Rat{co[V[k]].a.coef(s), 1}; D.push_back(d); }
    for (int s : pb) { vector<Rat> d(n); for (int k = 0; k < n; k++) d[k] = Rat{co[V[k]].b.coef(s), 1}; D.push_back(d); }
    { vector<Rat> d(n); for (int k = 0; k < n; k++) d[k] = Rat{co[V[k]].b.c - co[V[k]].a.c, 1}; D.push_back(d); }
    // row echelon of D; null space of D gives the coefficient vectors of equalities.
    // order columns so that unchanged coordinates are pivots first (they stay free parameters)
    vector<int> colOrder; for (int k = 0; k < n; k++) if (!co[V[k]].fresh) colOrder.push_back(k); for (int k = 0; k < n; k++) if (co[V[k]].fresh) colOrder.push_back(k);
    int r = 0; vector<int> pivCol; bool ovf = false;
    for (int c : colOrder) {
      int p = -1; for (int k = r; k < (int)D.size(); k++) if (D[k][c].n != 0) { p = k; break; }
      if (p < 0) continue; std::swap(D[p], D[r]);
      Rat iv = D[r][c]; for (int k = 0; k < n; k++) D[r][k] = rdiv(D[r][k], iv);
      for (int k = 0; k < (int)D.size(); k++) if (k != r && D[k][c].n != 0) { Rat f = D[k][c]; for (int z = 0; z < n; z++) { D[k][z] = rsub(D[k][z], rmul(f, D[r][z])); if (iabs(D[k][z].n) > ((I)1 << 60) || D[k][z].d > ((I)1 << 60)) ovf = true; } }
      pivCol.push_back(c); r++;
    }
    if (!ovf) {
      std::set<int> piv(pivCol.begin(), pivCol.end());
      // each non pivot column c gives a coefficient vector x: x[c]=1, x[pivCol[k]] = -D[k][c]
      for (int c = 0; c < n; c++) if (!piv.count(c) && co[V[c]].fresh) {
        I l = 1; bool ok = true; for (int k = 0; k < r; k++) { l = l / igcd(l, D[k][c].d) * D[k][c].d; if (l > 1000000) ok = false; }
        if (!ok) continue;
        Lin e = Lin::sym(co[V[c]].sym, l); Lin ea = scale(co[V[c]].a, l);
        for (int k = 0; k < r; k++) if (D[k][c].n != 0) { I q = -D[k][c].n * (l / D[k][c].d); e = addmul(e, Lin::sym(co[V[pivCol[k]]].sym), q); ea = addmul(ea, co[V[pivCol[k]]].a, q); }
        if (!ea.isConst()) continue;
        e.c = -ea.c;
        eqs[co[V[c]].sym] = e;
      }
    }
  }
  for (auto &e : eqs) R.addEq(e.second);
  if (R.dead) { R.dead = false; return false; }
  // ---- inequalities
  auto mapTo = [&](const Lin &e, bool toA) { Lin r(e.c); for (auto &p : e.t) { auto &c = co[ci[p.first]]; r = addmul(r, toA ? c.a : c.b, p.second); } return r; };
  // candidates from the constraints of A and B rewritten over the coordinates
  for (int side = 0; side < (widen ? 1 : 2); side++) {
    State &S = side == 0 ? A : B; 
    map<int, Lin> inv; for (auto &c : co) { if (c.w < 0) continue; const Lin &e = side == 0 ? c.a : c.b; if (e.t.size() == 1 && iabs(e.t[0].second) == 1 && !inv.count(e.t[0].first)) { Lin x = Lin::sym(c.sym); x.c = -e.c; inv[e.t[0].first] = scale(x, e.t[0].second); } }
    // prefer fresh coordinates for symbols that moved
    auto tr = [&](const Lin &e, bool &ok) { Lin r(e.c); for (auto &p : e.t) { auto it = inv.find(p.first); if (it == inv.end()) { ok = false; return r; } r = addmul(r, it->second, p.second); } return r; };
    for (auto &c : S.cons) { bool ok = true; Lin e = tr(c, ok); if (!ok) continue; if (A.entLe(mapTo(e, true)) && B.entLe(mapTo(e, false))) R.addLe(e); }
    for (auto &c : S.neqs) { bool ok = true; Lin e = tr(c, ok); if (!ok) continue; if (A.decEq(mapTo(e, true)) == 0 && B.decEq(mapTo(e, false)) == 0) R.addNe(e); }
    // several coordinates may carry the same symbol: also try the changed ones
    for (auto &c : co) if (c.fresh && c.w >= 0) { const Lin &e0 = side == 0 ? c.a : c.b; if (e0.t.size() != 1 || iabs(e0.t[0].second) != 1) continue; Lin x = Lin::sym(c.sym); x.c = -e0.c; auto old = inv[e0.t[0].first]; inv[e0.t[0].first] = scale(x, e0.t[0].second);
      for (auto &q : S.cons) if (q.has(e0.t[0].first)) { bool ok = true; Lin e = tr(q, ok); if (!ok) continue; if (A.entLe(mapTo(e, true)) && B.entLe(mapTo(e, false))) R.addLe(e); }
      inv[e0.t[0].first] = old; }
  }
  if (!widen) {
    // difference templates between changed coordinates and related ones
    std::set<int> relc = rel;
    for (auto *S : {&A, &B}) for (auto &c : S->cons) { bool h = false; for (auto &p : c.t) if (rel.count(p.first)) h = true; if (h) for (auto &p : c.t) relc.insert(p.first); }
    for (auto &m : R.mem) { const Obj *o = m.second.get(); if (!o->live || o->summary) continue; if (o->hasSlen) for (auto &p : o->slen.t) relc.insert(p.first); for (auto &g : o->sm) { for (auto &p : g.first.t) relc.insert(p.first); for (auto &p : g.second.t) relc.insert(p.first); } }
    vector<int> T; for (size_t k = 0; k < co.size(); k++) if (co[k].w >= 0 && (co[k].fresh || relc.count(co[k].sym))) T.push_back(k);
    for (int pass = 0; pass < 2; pass++) { int cnt = 0;
    for (int i : T) if (co[i].fresh && !R.sub.count(co[i].sym)) for (int j : T) if (i != j && (!co[j].fresh || i < j) && !R.sub.count(co[j].sym)) {
      if ((co[i].w == 8 || co[j].w == 8) != (pass == 1)) continue;
      if (++cnt > 400) break;
      for (int sg = 0; sg < 2; sg++) {
        Lin d = Lin::sym(co[i].sym) - Lin::sym(co[j].sym); if (sg) d = neg(d);
        Itv rb = R.bounds(d);
        I ua = A.lpUb(mapTo(d, true)); if (ua >= rb.hi || ua > BIG) continue;
        I ub = B.lpUb(mapTo(d, false)); I u = std::max(ua, ub); if (u >= rb.hi || u > BIG || u <= NEG) continue;
        R.addLe(d - Lin(u));
      }
    }
    }
  }
  R.bf.clear(); for (auto &x : A.bf) if (keep.count(x.sym)) { bool ok = true; for (auto &p : x.diff.t) if (!keep.count(p.first)) ok = false; if (!ok) continue; for (auto &y : B.bf) if (y.sym == x.sym && y.diff == x.diff) { R.bf.push_back(x); break; } }
  if (R.dead) { R.dead = false; return false; }
  for (auto &x : A.vn) { Lin a = A.res(x.a), b = A.res(x.b), r = A.res(x.r); bool ok = true; for (auto *l : {&a, &b, &r}) for (auto &p : l->t) if (!keep.count(p.first)) ok = false; if (!ok) continue;
    for (auto &y : B.vn) if (y.op == x.op && B.res(y.a) == a && B.res(y.b) == b && B.res(y.r) == r) { R.vn.push_back({x.op, a, b, r}); break; } }
  // intervals that became singletons
  for (auto &x : vector<pair<int, Itv>>(R.syms)) if (x.second.lo == x.second.hi && !R.sub.count(x.first)) R.doSub(x.first, Lin(x.second.lo));
  R.tr = B.tr;
  joins++;
  return !R.dead;
}

// fold heap blocks that are only reachable through other heap blocks into one summary per allocation site
void Engine::fold(State &s, int keep) {
  map<const Value *, int> cnt; for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary) cnt[m.second->site]++;
  bool any = false; for (auto &c : cnt) if (c.second >= keep) any = true; if (!any) return;
  set<int> rooted;
  auto root = [&](const Val &v) { if (v.k == Val::Ptr) rooted.insert(v.obj); };
  for (auto &f : s.fr) for (auto &e : f->env) root(e.second);
  for (auto &m : s.mem) if (m.second->kind != Obj::Heap) for (auto &c : m.second->cells) root(c.second.v);
  // blocks owned by a rooted block through exactly one pointer of another site stay precise with their owner
  map<int, int> owner; for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary) for (auto &c : m.second->cells) if (c.second.v.k == Val::Ptr && c.second.v.obj) { auto o = s.co(c.second.v.obj); if (o && o->site != m.second->site) owner[c.second.v.obj] = m.first; }
  set<int> foldset;
  for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary && !rooted.count(m.first) && cnt[m.second->site] >= keep) { auto it = owner.find(m.first); if (it != owner.end() && rooted.count(it->second)) continue; foldset.insert(m.first); }
  if (foldset.empty()) return;
  map<const Value *, int> sum; for (auto &m : s.mem) if (m.second->summary) sum[m.second->site] = m.first;
  map<int, int> ren;
  for (int id : foldset) {
    const Obj *o = s.co(id); auto it = sum.find(o->site);
    if (it == sum.end()) { int n = newObj(s, Obj::Heap, o->size.isConst() ? o->size : Lin(s.bounds(o->size).lo > 0 ? s.bounds(o->size).lo : (I)0), o->site, o->name + "(summary)", SegK); Obj &q = s.mo(n); q.summary = true; q.tag = o->tag; sum[o->site] = n; }
    ren[id] = sum[o->site];
  }
  // rename references
  for (auto &m : s.mem) { bool h = false; for (auto &c : m.second->cells) if (c.second.v.k == Val::Ptr && ren.count(c.second.v.obj)) h = true; for (auto &a : m.second->alts) for (auto &v : a.second.second) if (ren.count(v.obj)) h = true; if (!h) continue; auto np = make_shared<Obj>(*m.second); for (auto &c : np->cells) if (c.second.v.k == Val::Ptr && ren.count(c.second.v.obj)) c.second.v.obj = ren[c.second.v.obj]; 
    for (auto &a : np->alts) { vector<AVal> nv; for (auto v : a.second.second) { if (v.k == Val::Ptr && ren.count(v.obj)) v.obj = ren[v.obj]; bool dup = false; for (auto &x : nv) if (x == v) dup = true; if (!dup) nv.push_back(v); } a.second.second = nv; }
    m.second = np; }
  for (auto &m : s.mem) { bool h = false; for (auto &r : m.second->pv) if (ren.count(r.src)) h = true; if (h) { auto np = make_shared<Obj>(*m.second); vector<Prov> k; for (auto &r : np->pv) if (!ren.count(r.src)) k.push_back(r); np->pv = k; m.second = np; } }
  for (int id : foldset) {
    shared_ptr<Obj> o = s.mem[id]; Obj &q = s.mo(ren[id]);
    Itv b = s.bounds(o->size); if (q.size.isConst() && b.lo < q.size.c) q.size = Lin(b.lo > 0 ? b.lo : (I)0);
    for (auto &c : o->cells) { Val v = c.second.v; v.e = s.res(v.e); weakStore(s, q, c.first, c.second.sz, v); }
    s.mem.erase(id);
  }
  compact(s);
}
