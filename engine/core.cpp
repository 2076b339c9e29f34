#include "engine.h"
using namespace llvm;
int g_nextSym = 0, g_nextObj = 0; long g_lp = 0, g_queries = 0;

static I pow2(int k) { return ((I)1) << k; }

// ------------------------------------------------------------------ function info
FnInfo &Engine::info(const Function *F) {
  auto it = fi.find(F); if (it != fi.end()) return it->second;
  FnInfo &f = fi[F]; Function &G = *const_cast<Function *>(F);
  for (auto &a : G.args()) { f.num[&a] = f.byNum.size(); f.byNum.push_back(&a); }
  for (auto &b : G) for (auto &i : b) if (!i.getType()->isVoidTy()) { f.num[&i] = f.byNum.size(); f.byNum.push_back(&i); }
  f.DT = std::make_unique<DominatorTree>(G); f.LI = std::make_unique<LoopInfo>(*f.DT);
  // reverse post order
  vector<const BasicBlock *> post; std::set<const BasicBlock *> seen;
  std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) {
    seen.insert(b);
    vector<const BasicBlock *> ss(succ_begin(b), succ_end(b));
    // visit loop exits first so that they get a later rpo number than the loop body
    Loop *L = f.LI->getLoopFor(b);
    std::stable_sort(ss.begin(), ss.end(), [&](const BasicBlock *x, const BasicBlock *y) { bool ix = L && L->contains(x), iy = L && L->contains(y); return (int)ix < (int)iy; });
    for (auto *x : ss) if (!seen.count(x)) dfs(x);
    post.push_back(b);
  };
  dfs(&G.getEntryBlock());
  f.order.assign(post.rbegin(), post.rend());
  for (size_t i = 0; i < f.order.size(); i++) f.rpo[f.order[i]] = i;
  // liveness
  bool chg = true;
  map<const BasicBlock *, set<int>> use, def;
  for (auto *b : f.order) for (auto &i : *b) {
    if (!isa<PHINode>(i)) for (auto &o : i.operands()) { auto n = f.num.find(o.get()); if (n != f.num.end() && !def[b].count(n->second)) use[b].insert(n->second); }
    auto n = f.num.find(&i); if (n != f.num.end()) def[b].insert(n->second);
  }
  while (chg) {
    chg = false;
    for (auto bi = f.order.rbegin(); bi != f.order.rend(); ++bi) {
      auto *b = *bi; set<int> out;
      for (auto *x : successors(b)) {
        auto &li = f.liveIn[x]; for (int v : li) out.insert(v);
        for (auto &p : x->phis()) { out.erase(f.num[&p]); }
        for (auto &p : x->phis()) { auto *v = p.getIncomingValueForBlock(b); auto n = f.num.find(v); if (n != f.num.end()) out.insert(n->second); }
      }
      set<int> in = use[b]; for (int v : out) if (!def[b].count(v)) in.insert(v);
      for (auto &p : b->phis()) in.insert(f.num[&p]);
      if (out != f.liveOut[b]) { f.liveOut[b] = out; chg = true; }
      if (in != f.liveIn[b]) { f.liveIn[b] = in; chg = true; }
    }
  }
  for (auto *b : f.order) {
    set<int> live = f.liveOut[b];
    for (auto ii = b->rbegin(); ii != b->rend(); ++ii) {
      if (isa<CallBase>(*ii)) f.liveAfter[&*ii] = live;
      auto n = f.num.find(&*ii); if (n != f.num.end()) live.erase(n->second);
      if (!isa<PHINode>(*ii)) for (auto &o : ii->operands()) { auto m = f.num.find(o.get()); if (m != f.num.end()) live.insert(m->second); }
    }
  }
  return f;
}

// ------------------------------------------------------------------ locations, alarms
string Engine::locOf(const Instruction *i) {
  if (!i) return "?";
  for (const Instruction *j = i; j; j = j->getNextNode()) if (const DebugLoc &d = j->getDebugLoc()) { if (d.getLine() == 0 && j->getNextNode()) continue; auto *sc = cast<DIScope>(d.getScope()); return (sc->getFilename() + ":" + Twine(d.getLine())).str(); }
  return (i->getFunction()->getName() + ":?").str();
}
void Engine::oblig(const string &kind, const Instruction *i) {
  obCount[kind]++; obligations[kind].insert(locOf(i));
}
void Engine::alarm(State &s, const Instruction *i, const string &kind, const string &msg, const string &tag) {
  if (kind != "internal" && !cfg.kinds.empty() && !cfg.kinds.count(kind)) return;
  if (!cfg.only.empty() && kind == "assert") { bool m = false; for (auto &r : cfg.only) if (std::regex_search(tag, r)) m = true; if (!m) return; }
  string loc = locOf(i); string fn = i ? i->getFunction()->getName().str() : "";
  string key = kind + "|" + loc + "|" + tag + "|" + fn;
  auto it = alarms.find(key); if (it != alarms.end()) { it->second.count++; return; }
  Alarm a; a.kind = kind; a.msg = msg; a.tag = tag; a.fn = fn;
  auto c = loc.rfind(':'); a.file = loc.substr(0, c); a.line = atoi(loc.c_str() + c + 1);
  for (int k = (int)s.fr.size() - 1; k >= 0; k--) {
    string l = s.fr[k]->F->getName().str();
    if (k < (int)s.fr.size() - 1 && s.fr[k]->site) l += " (" + locOf(s.fr[k]->site) + ")"; else l += " (" + loc + ")";
    a.stack.push_back(l);
  }
  int n = 0; for (auto t = s.tr; t && n < 60; t = t->prev, n++) a.trace.push_back(locOf(t->i) + (t->note ? "T" : "F"));
  std::reverse(a.trace.begin(), a.trace.end());
  string ex; int k = 0; for (auto &x : s.cons) { if (k++ > 25) break; ex += x.str() + "<=0; "; }
  for (auto &x : s.syms) { if (k++ > 60) break; if (!s.sub.count(x.first)) ex += "s" + std::to_string(x.first) + " in [" + istr(x.second.lo) + "," + istr(x.second.hi) + "]; "; }
  a.extra = ex;
  alarms[key] = a;
  if (cfg.verbose) { fprintf(stderr, "ALARM %s %s %s: %s\n", kind.c_str(), loc.c_str(), tag.c_str(), msg.c_str()); }
}

// ------------------------------------------------------------------ values
Val Engine::eval(State &s, const Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() == 1) return Val::I_(Lin((I)c->getZExtValue()));
    if (c->getBitWidth() <= 64) return Val::I_(Lin((I)c->getSExtValue()));
    return Val::top();
  }
  if (isa<ConstantPointerNull>(v)) return Val::null();
  if (isa<UndefValue>(v)) return Val();
  if (auto *f = dyn_cast<Function>(v)) return Val::F(f);
  if (isa<GlobalVariable>(v)) { auto it = gobj.find(v); if (it != gobj.end()) return Val::P(it->second); return Val::top(); }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      Val b = eval(s, g->getPointerOperand()); APInt off(64, 0);
      if (b.k == Val::Ptr && g->accumulateConstantOffset(DL, off)) { b.e = addc(b.e, (I)off.getSExtValue()); return b; }
      return Val::top();
    }
    if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return eval(s, ce->getOperand(0));
    if (ce->getOpcode() == Instruction::IntToPtr) { Val x = eval(s, ce->getOperand(0)); if (x.k == Val::Int && x.e.isConst()) return Val::P(0, x.e); }
    return Val::top();
  }
  if (isa<ConstantAggregateZero>(v)) return Val::I_(Lin(0));
  auto &f = info(s.fr.back()->F);
  auto n = f.num.find(v);
  if (n != f.num.end()) {
    auto it = s.fr.back()->env.find(n->second);
    if (it != s.fr.back()->env.end()) { Val r = it->second; if (!r.e.t.empty()) r.e = s.res(r.e); return r; }
  }
  return Val::top();
}

// partition on the value of e (bisection on its tight range)
void Engine::throwEnum(State &s, const Lin &e0) {
  Lin e = s.res(e0); Itv t = s.tight(e);
  if (t.lo >= t.hi) throw Split{true, addc(e, -t.lo)};
  throw Split{false, addc(e, -floordiv(t.lo + t.hi, 2))};
}
Lin Engine::canonS(State &s, const Lin &e0, int w) {
  Lin e = s.res(e0); I M2 = pow2(w), lo = -pow2(w - 1), hi = pow2(w - 1) - 1;
  if (e.isConst()) { I r = ((e.c % M2) + M2) % M2; if (r > hi) r -= M2; return Lin(r); }
  Itv b = s.bounds(e);
  if (b.lo >= lo && b.hi <= hi) return e;
  if (b.lo < lo && s.entLe(Lin(lo) - e)) b.lo = lo;
  if (b.hi > hi && s.entLe(e - Lin(hi))) b.hi = hi;
  if (b.lo >= lo && b.hi <= hi) return e;
  b = s.tight(e);
  if (b.lo > NEG && b.hi < POS) {
    I k0 = floordiv(b.lo - lo, M2), k1 = floordiv(b.hi - lo, M2);
    if (k0 == k1) return addc(e, -k0 * M2);
    // all coefficients multiples of 2^w ?
    if (k1 - k0 <= 2) throw Split{false, e - Lin(k0 * M2 + hi)};
    for (auto &v : s.vn) if (v.op == 1000 + w && s.res(v.a) == e) return s.res(v.r);
    Lin r = Lin::sym(s.fresh(lo, hi));
    if (w <= 32) { Lin q = Lin::sym(s.fresh(k0, k1)); Lin d = e - r - scale(q, M2); s.addEq(d); }
    s.vn.push_back({1000 + w, e, Lin(), r});
    return s.res(r);
  }
  for (auto &v : s.vn) if (v.op == 1000 + w && s.res(v.a) == e) return s.res(v.r);
  Lin r = Lin::sym(s.fresh(lo, hi)); s.vn.push_back({1000 + w, e, Lin(), r}); return r;
}
Lin Engine::canonU(State &s, const Lin &e0, int w) {
  Lin e = s.res(e0); I M2 = pow2(w), lo = 0, hi = M2 - 1;
  if (e.isConst()) return Lin(((e.c % M2) + M2) % M2);
  Itv b = s.bounds(e);
  if (b.lo >= lo && b.hi <= hi) return e;
  if (b.lo < lo && s.entLe(neg(e))) b.lo = lo;
  if (b.hi > hi && s.entLe(e - Lin(hi))) b.hi = hi;
  if (b.lo >= lo && b.hi <= hi) return e;
  b = s.tight(e);
  if (b.lo > NEG && b.hi < POS) {
    I k0 = floordiv(b.lo, M2), k1 = floordiv(b.hi, M2);
    if (k0 == k1) return addc(e, -k0 * M2);
    if (k1 - k0 <= 2) throw Split{false, e - Lin(k0 * M2 + hi)};
    if (w <= 32) return divmod(s, e, M2).second;
    for (auto &v : s.vn) if (v.op == 2000 + w && s.res(v.a) == e) return s.res(v.r);
    Lin r = Lin::sym(s.fresh(lo, hi));
    if (w <= 32) { Lin q = Lin::sym(s.fresh(k0, k1)); Lin d = e - r - scale(q, M2); s.addEq(d); }
    s.vn.push_back({2000 + w, e, Lin(), r});
    return s.res(r);
  }
  for (auto &v : s.vn) if (v.op == 2000 + w && s.res(v.a) == e) return s.res(v.r);
  Lin r = Lin::sym(s.fresh(lo, hi)); s.vn.push_back({2000 + w, e, Lin(), r}); return r;
}
// floor division by a positive constant
pair<Lin, Lin> Engine::divmod(State &s, const Lin &e0, I k) {
  Lin e = s.res(e0);
  if (e.isConst()) { I q = floordiv(e.c, k); return {Lin(q), Lin(e.c - q * k)}; }
  Lin d, r; d.c = floordiv(e.c, k); r.c = e.c - d.c * k;
  for (auto &p : e.t) {
    I c = p.second % k; if (c * 2 > k) c -= k; else if (c * 2 <= -k) c += k;
    if (p.second != c) d = addmul(d, Lin::sym(p.first), (p.second - c) / k);
    if (c != 0) r = addmul(r, Lin::sym(p.first), c);
  }
  Itv b = s.bounds(r);
  if (b.lo >= 0 && b.hi < k) return {d, r};
  if (b.lo > NEG && b.hi < POS && floordiv(b.lo, k) == floordiv(b.hi, k)) { I q = floordiv(b.lo, k); return {addc(d, q), addc(r, -q * k)}; }
  b = s.tight(r);
  if (b.lo >= 0 && b.hi < k) return {d, r};
  if (b.lo > NEG && b.hi < POS && floordiv(b.lo, k) == floordiv(b.hi, k)) { I q = floordiv(b.lo, k); return {addc(d, q), addc(r, -q * k)}; }
  // a known quotient of an expression that differs by a multiple of k
  for (auto &v : s.vn) if (v.op == 1 && v.b.c == k) {
    Lin df = e - s.res(v.a); bool all = df.c % k == 0; for (auto &p : df.t) if (p.second % k) { all = false; break; }
    if (!all) continue;
    df.c /= k; for (auto &p : df.t) p.second /= k;
    Lin q = s.res(df + s.res(v.r)); return {q, s.res(e - scale(q, k))};
  }
  // multiples of k that belong to the remainder
  { vector<pair<int, I>> ms; for (auto &p : e.t) if (p.second % k == 0) ms.push_back(p);
    if (!ms.empty() && ms.size() <= 4 && ms.size() < e.t.size()) for (unsigned m = 1; m < (1u << ms.size()); m++) {
      Lin r2 = r, d2 = d; for (size_t z = 0; z < ms.size(); z++) if (m >> z & 1) { r2 = addmul(r2, Lin::sym(ms[z].first), ms[z].second); d2 = addmul(d2, Lin::sym(ms[z].first), -ms[z].second / k); }
      Itv t = s.tight(r2); if (t.lo > NEG && t.hi < POS && floordiv(t.lo, k) == floordiv(t.hi, k)) { I q = floordiv(t.lo, k); return {addc(d2, q), addc(r2, -q * k)}; }
    } }
  // floor(floor(a/k1)/k) = floor(a/(k1*k))
  if (e.t.size() == 1 && e.c == 0 && e.t[0].second == 1) for (size_t z = 0; z < s.vn.size(); z++) { VN v = s.vn[z]; if (v.op == 1 && s.res(v.r) == e && k < BIG && v.b.c < BIG) { I kk = k * v.b.c; if (kk > BIG) continue; Lin q = divmod(s, s.res(v.a), kk).first; e = s.res(e); Lin m = e - scale(q, k); s.addLe(neg(m)); s.addLe(m - Lin(k - 1)); return {s.res(q), s.res(m)}; } }
  I ql = b.lo <= NEG ? NEG : floordiv(b.lo, k), qh = b.hi >= POS ? POS : floordiv(b.hi, k);
  Lin q = Lin::sym(s.fresh(ql, qh));
  s.vn.push_back({1, r, Lin(k), q});
  Lin m = r - scale(q, k);
  s.addLe(neg(m)); s.addLe(m - Lin(k - 1));
  q = s.res(q);
  return {d + q, s.res(r) - scale(q, k)};
}
Lin Engine::andMask(State &s, const Lin &e, unsigned __int128 m, int w) {
  Lin r(0); int b = 0;
  Lin cur = s.res(e);
  while (b < w) {
    while (b < w && !((m >> b) & 1)) b++;
    if (b >= w) break;
    int a = b; while (b < w && ((m >> b) & 1)) b++;
    // bits a..b-1
    Lin x = cur;
    if (b < w) x = divmod(s, x, pow2(b)).second;
    if (a > 0) x = x - divmod(s, x, pow2(a)).second;
    r = r + x;
  }
  return s.res(r);
}
Val Engine::freshVal(State &s, Type *t, bool sgn) {
  if (t->isIntegerTy()) {
    int w = t->getIntegerBitWidth(); if (w > 64) return Val::top();
    if (w == 1) return Val::I_(Lin::sym(s.fresh(0, 1)));
    if (sgn) return Val::I_(Lin::sym(s.fresh(-pow2(w - 1), pow2(w - 1) - 1)));
    return Val::I_(Lin::sym(s.fresh(0, pow2(w) - 1)));
  }
  return Val::top();
}
Lin Engine::toInt(State &s, const Val &v, const Instruction *i, int w) {
  if (v.k == Val::Int) return s.res(v.e);
  if (v.k == Val::Ptr) {
    if (v.obj == 0) return v.e;
    Obj &o = constObj.count(v.obj) ? *constObj[v.obj] : s.mo(v.obj);
    if (!o.addr) { o.addr = s.fresh(4096, pow2(47)); }
    else if (!s.itvp(o.addr)) { Itv x; x.lo = 4096; x.hi = pow2(47); auto it = std::lower_bound(s.syms.begin(), s.syms.end(), o.addr, [](const pair<int, Itv> &a, int b) { return a.first < b; }); s.syms.insert(it, {o.addr, x}); }
    return v.e + Lin::sym(o.addr);
  }
  if (v.k == Val::Undef) { alarm(s, i, "uninit", "use of an uninitialised value"); }
  return Lin::sym(s.fresh(-pow2(w - 1), pow2(w - 1) - 1));
}

Val Engine::binop(State &s, unsigned op, const Val &a, const Val &b, int w, const Instruction *i) {
  if (a.k == Val::Undef || b.k == Val::Undef) {
    // x & 0, x * 0 aside an undefined operand makes the result undefined
    return Val();
  }
  Lin x = toInt(s, a, i, w), y = toInt(s, b, i, w);
  if (w == 1) {
    if (x.isConst() && y.isConst()) {
      I p = x.c & 1, q = y.c & 1, r = 0;
      switch (op) { case Instruction::And: case Instruction::Mul: r = p & q; break; case Instruction::Or: r = p | q; break; default: r = p ^ q; }
      return Val::I_(Lin(r));
    }
    if (!x.isConst()) throw Split{true, x}; throw Split{true, y};
  }
  unsigned __int128 MSK = ((unsigned __int128)1 << w) - 1;
  switch (op) {
  case Instruction::Add: return Val::I_(x + y);
  case Instruction::Sub: return Val::I_(x - y);
  case Instruction::Mul:
    if (x.isConst()) return Val::I_(scale(y, x.c));
    if (y.isConst()) return Val::I_(scale(x, y.c));
    {
      Itv p = s.bounds(x), q = s.bounds(y);
      if (p.hi - p.lo >= 0 && p.hi < POS && p.lo > NEG && p.hi - p.lo <= 8) throwEnum(s, x);
      if (q.hi < POS && q.lo > NEG && q.hi - q.lo <= 8) throwEnum(s, y);
      for (auto &v : s.vn) if (v.op == 5 && s.res(v.a) == x && s.res(v.b) == y) return Val::I_(s.res(v.r));
      I lo = NEG, hi = POS;
      if (p.lo > -BIG && p.hi < BIG && q.lo > -BIG && q.hi < BIG) { I c[4] = {p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
      Lin r = Lin::sym(s.fresh(lo, hi)); s.vn.push_back({5, x, y, r});
      if (p.lo >= 1 && q.lo >= 0) s.addLe(y - r);
      if (q.lo >= 1 && p.lo >= 0) s.addLe(x - r);
      return Val::I_(s.res(r));
    }
  case Instruction::Shl:
    if (y.isConst()) { if (y.c < 0 || y.c >= w) { alarm(s, i, "shift", "shift amount out of range"); return freshVal(s, i->getType()); } return Val::I_(scale(x, pow2((int)y.c))); }
    { Itv q = s.tight(y); if (q.lo >= -64 && q.hi <= 128) throwEnum(s, y); y = canonU(s, y, w); if (!s.entLe(y - Lin(w - 1))) alarm(s, i, "shift", "shift amount may be out of range"); return freshVal(s, i->getType()); }
  case Instruction::LShr: case Instruction::AShr: {
    if (!y.isConst()) { Itv q = s.tight(y); if (q.lo >= -64 && q.hi <= 128) throwEnum(s, y); return freshVal(s, i->getType()); }
    if (y.c < 0 || y.c >= w) { alarm(s, i, "shift", "shift amount out of range"); return freshVal(s, i->getType()); }
    Lin e = op == Instruction::LShr ? canonU(s, x, w) : canonS(s, x, w);
    return Val::I_(divmod(s, e, pow2((int)y.c)).first);
  }
  case Instruction::And:
    if (x.isConst() && !y.isConst()) std::swap(x, y);
    if (y.isConst()) return Val::I_(andMask(s, x, (unsigned __int128)y.c & MSK, w));
    {
      if (x == y) return Val::I_(x);
      Itv p = s.bounds(x), q = s.bounds(y);
      if (q.lo >= 0 && q.hi <= 8 ) throwEnum(s, y);
      if (p.lo >= 0 && p.hi <= 8 ) throwEnum(s, x);
      I hi = pow2(w) - 1; if (p.lo >= 0) hi = std::min(hi, p.hi); if (q.lo >= 0) hi = std::min(hi, q.hi);
      for (auto &v : s.vn) if (v.op == 6 && s.res(v.a) == x && s.res(v.b) == y) return Val::I_(s.res(v.r));
      Lin r = Lin::sym(s.fresh(0, hi)); s.vn.push_back({6, x, y, r});
      if (p.lo >= 0) s.addLe(r - x); if (q.lo >= 0) s.addLe(r - y);
      return Val::I_(s.res(r));
    }
  case Instruction::Or: case Instruction::Xor:
    if (x.isConst() && !y.isConst()) std::swap(x, y);
    if (y.isConst()) {
      Lin m = andMask(s, x, (unsigned __int128)y.c & MSK, w);
      return Val::I_(op == Instruction::Or ? x + y - m : x + y - scale(m, 2));
    }
    {
      if (op == Instruction::Or && x == y) return Val::I_(x);
      if (op == Instruction::Xor && x == y) return Val::I_(Lin(0));
      for (int sw = 0; sw < 2; sw++) {
        Itv q = s.tight(y); 
        if (q.lo >= 0 && q.hi < BIG) {
          I g = 0; for (auto &p : x.t) g = igcd(g, p.second); g = igcd(g, x.c);
          I k = 1; while (k <= q.hi) k *= 2;
          if (g % k == 0) return Val::I_(x + y);
        }
        std::swap(x, y);
      }
      Itv p = s.tight(x), q = s.tight(y);
      if (q.lo >= 0 && q.hi <= 1) throwEnum(s, y);
      if (p.lo >= 0 && p.hi <= 1) throwEnum(s, x);
      I hi = pow2(w) - 1; if (p.lo >= 0 && q.lo >= 0 && p.hi < BIG && q.hi < BIG) { I k = 1; while (k <= p.hi || k <= q.hi) k *= 2; hi = k - 1; }
      for (auto &v : s.vn) if (v.op == 7 + (int)(op == Instruction::Xor) && s.res(v.a) == x && s.res(v.b) == y) return Val::I_(s.res(v.r));
      Lin r = Lin::sym(s.fresh(0, hi)); s.vn.push_back({7 + (int)(op == Instruction::Xor), x, y, r});
      if (p.lo >= 0 && q.lo >= 0) { if (op == Instruction::Or) { s.addLe(x - r); s.addLe(y - r); } s.addLe(r - x - y); }
      return Val::I_(s.res(r));
    }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    bool u = op == Instruction::UDiv || op == Instruction::URem, rem = op == Instruction::URem || op == Instruction::SRem;
    Lin n = u ? canonU(s, x, w) : canonS(s, x, w), d = u ? canonU(s, y, w) : canonS(s, y, w);
    oblig("div", i);
    if (!s.isNonZero(d)) { int z = s.decEq(d); if (z != 0) { alarm(s, i, "div0", "division by zero possible"); if (!s.addNe(d)) throw Die(); d = s.res(d); } }
    if (d.isConst()) {
      I k = d.c;
      Itv b = s.bounds(n);
      if (k > 0 && (u || b.lo >= 0)) { auto qr = divmod(s, n, k); return Val::I_(rem ? qr.second : qr.first); }
      if (k > 0 && !u) {
        // exact division (pointer difference)
        bool all = n.c % k == 0; for (auto &p : n.t) if (p.second % k) all = false;
        if (all) { Lin q; q.c = n.c / k; for (auto &p : n.t) q.t.push_back({p.first, p.second / k}); return Val::I_(rem ? Lin(0) : q); }
        if (b.lo < 0 && b.hi >= 0) throw Split{false, addc(n, 1)};
        if (b.hi < 0) { auto qr = divmod(s, neg(n), k); return Val::I_(rem ? neg(qr.second) : neg(qr.first)); }
      }
    }
    Itv b = s.bounds(n), db = s.bounds(d);
    if (b.lo >= 0 && db.lo >= 1) {
      Lin r = Lin::sym(s.fresh(0, b.hi)); s.addLe(r - n);
      if (rem) s.addLe(r - addc(d, -1));
      return Val::I_(s.res(r));
    }
    return freshVal(s, i->getType());
  }
  }
  return freshVal(s, i->getType());
}

// returns 0/1; throws Split/ForkVals when undecided
int Engine::icmp(State &s, unsigned pred, const Val &a, const Val &b, int w, bool ptr, const Instruction *i, bool &cd) {
  auto both = [&]() { ForkVals f; f.v = {Val::I_(Lin(0)), Val::I_(Lin(1))}; return f; };
  if (a.k == Val::Undef || b.k == Val::Undef) { alarm(s, i, "uninit", "branch condition depends on an uninitialised value"); throw both(); }
  if (a.k == Val::Top || b.k == Val::Top) throw both();
  bool eq = pred == CmpInst::ICMP_EQ, ne = pred == CmpInst::ICMP_NE;
  Lin x, y;
  if (a.k == Val::Fn || b.k == Val::Fn) { bool same = a.k == b.k && a.f == b.f; cd = true; if (eq) return same; if (ne) return !same; throw both(); }
  if (a.k == Val::Ptr && b.k == Val::Ptr) {
    if (a.obj != b.obj) { cd = true; if (eq) return 0; if (ne) return 1; if (a.obj == 0) { if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE) return 1; return 0; } if (b.obj == 0) { if (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE) return 1; return 0; } throw both(); }
    x = s.res(a.e); y = s.res(b.e);
    // offsets are compared as (signed) numbers
    switch (pred) { case CmpInst::ICMP_ULT: pred = CmpInst::ICMP_SLT; break; case CmpInst::ICMP_ULE: pred = CmpInst::ICMP_SLE; break; case CmpInst::ICMP_UGT: pred = CmpInst::ICMP_SGT; break; case CmpInst::ICMP_UGE: pred = CmpInst::ICMP_SGE; break; default: break; }
  } else if (a.k == Val::Ptr || b.k == Val::Ptr) { throw both(); }
  else {
    x = s.res(a.e); y = s.res(b.e);
    if (eq || ne) {
      Itv p = s.bounds(x), q = s.bounds(y); I sl = -pow2(w - 1), sh = pow2(w - 1) - 1, uh = pow2(w) - 1;
      bool sg = p.lo >= sl && p.hi <= sh && q.lo >= sl && q.hi <= sh, ug = p.lo >= 0 && p.hi <= uh && q.lo >= 0 && q.hi <= uh;
      if (!sg && !ug) {
        // difference itself may be small enough to be decided modulo 2^w
        Lin d = x - y; Itv e = s.bounds(d);
        if (!(e.lo > -pow2(w) && e.hi < pow2(w))) { x = canonS(s, x, w); y = canonS(s, y, w); }
        else if (s.entLe(Lin(sl) - x) && s.entLe(x - Lin(sh)) && s.entLe(Lin(sl) - y) && s.entLe(y - Lin(sh))) {}
        else if (p.lo >= 0 || q.lo >= 0) { x = canonU(s, x, w); y = canonU(s, y, w); }
        else { x = canonS(s, x, w); y = canonS(s, y, w); }
      }
    } else if (CmpInst::isUnsigned((CmpInst::Predicate)pred)) { x = canonU(s, x, w); y = canonU(s, y, w); }
    else { x = canonS(s, x, w); y = canonS(s, y, w); }
  }
  Lin d = x - y; if (d.isConst()) cd = true;
  int r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = s.decEq(d); if (r < 0) throw Split{true, d}; return r;
  case CmpInst::ICMP_NE: r = s.decEq(d); if (r < 0) throw Split{true, d}; return !r;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: break;
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: d = addc(d, 1); break;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: d = neg(d); break;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: d = addc(neg(d), 1); break;
  default: throw both();
  }
  r = s.decLe(d); if (r < 0) throw Split{false, d};
  return r;
}

// ------------------------------------------------------------------ memory
const Obj *Engine::getObj(State &s, int id) {
  auto it = constObj.find(id); if (it != constObj.end()) return it->second.get();
  return s.co(id);
}
int Engine::newObj(State &s, Obj::K k, const Lin &size, const Value *site, const string &name, uint8_t bg) {
  auto o = make_shared<Obj>(); o->id = ++g_nextObj; o->kind = k; o->size = size; o->site = site; o->name = name; o->bg = {{0, bg}};
  s.mem[o->id] = o; return o->id;
}
// check an access of n bytes; returns false when n == 0
bool Engine::access(State &s, const Val &p, const Lin &n0, bool wr, const Instruction *i, const char *what) {
  Lin n = s.res(n0);
  oblig(wr ? "write-bounds" : "read-bounds", i);
  if (n.isConst() && n.c == 0) return false;
  if (p.k == Val::Undef) { alarm(s, i, "uninit-ptr", string(what) + " through an uninitialised pointer"); throw Die(); }
  if (p.k == Val::Top || p.k == Val::Int || p.k == Val::Fn) { alarm(s, i, "unknown-ptr", string(what) + " through a pointer of unknown provenance"); throw Die(); }
  if (p.obj == 0) {
    if (!n.isConst() && s.decLe(n) != 0) {   // length may be zero: only the non-zero part is wrong
      if (s.decLe(addc(neg(n), 1)) == 1) {}
      else throw Split{false, n};
      }
    alarm(s, i, "null", string(what) + " through a null pointer"); throw Die();
  }
  const Obj *o = getObj(s, p.obj);
  if (!o) { alarm(s, i, "unknown-ptr", string(what) + ": object gone"); throw Die(); }
  if (!o->live) { alarm(s, i, o->kind == Obj::Stack ? "use-after-scope" : "use-after-free", string(what) + " of " + o->name + (o->freedAt ? " released at " + locOf(o->freedAt) : "")); throw Die(); }
  if (wr && o->ro) { alarm(s, i, "ro-write", string("write to constant ") + o->name); throw Die(); }
  Lin lo = neg(p.e), hi = p.e + n - o->size;     // both must be <= 0
  bool a = s.entLe(lo), b = s.entLe(hi);
  bool nn = a && b ? true : true;
  (void)nn;
  if (!a || !b) {
    // a zero length access at any address is fine
    if (!n.isConst() && !s.isNonZero(n)) { int z = s.decEq(n); if (z == 1) return false; if (z < 0) throw Split{true, n}; }
    Itv x = s.bounds(p.e), y = s.bounds(n), z = s.bounds(o->size);
    I mx = s.lpUb(hi);
    alarm(s, i, wr ? "oob-write" : "oob-read", string(what) + " outside of " + o->name + ": offset [" + istr(x.lo) + "," + istr(x.hi) + "] length [" + istr(y.lo) + "," + istr(y.hi) + "] object size [" + istr(z.lo) + "," + istr(z.hi) + "]" + (!b ? " end exceeds size by up to " + istr(mx) : "") + (!a ? " offset may be negative" : ""));
    if (!s.addLe(lo) || !s.addLe(hi)) throw Die();
    if (!s.feasible()) throw Die();
  }
  return true;
}
static int typeSize(const DataLayout &DL, Type *t) { return DL.getTypeStoreSize(t); }

// an unknown byte range that is a copy of a still unchanged source reads like the source
bool Engine::provLoad(State &s, int obj, const Lin &off, int sz, Type *t, bool sgn, const Instruction *i, Val &out) {
  static int depth = 0; const Obj *o = getObj(s, obj); if (depth > 2 || !i || !t->isIntegerTy()) return false;
  for (auto &r : o->pv) { const Obj *x = getObj(s, r.src); if (!x || x->ver != r.ver || !x->live || x->summary) continue;
    if (!s.entLe(r.doff - off) || !s.entLe(off + Lin(sz) - r.doff - r.n)) continue;
    Lin so = s.res(off - r.doff + r.soff); int src = r.src; struct G { int &d; G(int &d) : d(d) { d++; } ~G() { d--; } } g(depth);
    Val v = load(s, Val::P(src, so), t, i, sgn); if (v.k != Val::Int) return false; out = v; return true; }
  return false;
}
Val Engine::loadCell(State &s, int obj, long off, int sz, Type *t, bool sgn, const Instruction *i) {
  const Obj *o = getObj(s, obj);
  auto conv = [&](const Val &v) -> Val {
    if (t->isPointerTy() && v.k == Val::Int) { Lin e = s.res(v.e); if (e.isConst()) return Val::P(0, e); return Val::top(); }
    if (t->isIntegerTy() && v.k == Val::Ptr && v.obj == 0) return Val::I_(v.e);
    if (t->isFloatingPointTy()) return Val::top();
    return v;
  };
  if (o->summary) {
    auto it = o->alts.find(off);
    ForkVals f;
    if (it != o->alts.end() && it->second.first == sz) {
      for (auto &a : it->second.second) {
        if (a.k == Val::Int) f.v.push_back(a.lo == a.hi ? Val::I_(Lin(a.lo)) : Val::I_(Lin::sym(s.fresh(a.lo, a.hi))));
        else if (a.k == Val::Ptr) f.v.push_back(Val::P(a.obj, a.lo == a.hi ? Lin(a.lo) : Lin::sym(s.fresh(a.lo, a.hi))));
        else if (a.k == Val::Fn) f.v.push_back(Val::F(a.f));
        else f.v.push_back(freshVal(s, t, sgn));
      }
      if (f.v.size() == 1) return conv(f.v[0]);
      if (f.v.size() > 1 && i) throw f;
    }
    return freshVal(s, t, sgn);
  }
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.sz == sz) { Val v = conv(it->second.v); if (v.k == Val::Int || v.k == Val::Ptr) v.e = s.res(v.e); return v; }
  // overlapping cells
  vector<pair<long, Cell>> ov;
  for (auto c = o->cells.lower_bound(off - 64); c != o->cells.end() && c->first < off + sz; ++c) if (c->first + c->second.sz > off) ov.push_back(*c);
  if (ov.empty()) {
    int k = o->bgRange(off, off + sz);
    if (k == SegZ) return t->isPointerTy() ? Val::null() : (t->isFloatingPointTy() ? Val::top() : Val::I_(Lin(0)));
    if (k == SegU) return Val();
    if (o->hasZ && t->isIntegerTy() && s.entLe(s.res(o->zfrom) - Lin(off))) return Val::I_(Lin(0));
    Val v;
    if (!provLoad(s, obj, Lin(off), sz, t, sgn, i, v)) v = freshVal(s, t, sgn);
    if (!constObj.count(obj)) { if (v.k == Val::Int) s.mo(obj).cells[off] = {sz, v}; }
    return v;
  }
  if (t->isIntegerTy() && sz <= 8) {
    // contained in a larger integer cell
    if (ov.size() == 1 && ov[0].first <= off && ov[0].first + ov[0].second.sz >= off + sz && ov[0].second.v.k == Val::Int) {
      int W = ov[0].second.sz * 8; Lin e = ov[0].second.v.e; long sh = (off - ov[0].first) * 8;
      if (sh) e = divmod(s, canonU(s, e, W), pow2(sh)).first;
      if (sh + sz * 8 < W) e = divmod(s, e, pow2(sz * 8)).second;
      return Val::I_(e);
    }
    // compose from smaller cells
    Lin r(0); bool ok = true; long p = off;
    while (p < off + sz && ok) {
      auto c = o->cells.find(p);
      if (c != o->cells.end() && c->second.v.k == Val::Int && p + c->second.sz <= off + sz) {
        Lin u = canonU(s, c->second.v.e, c->second.sz * 8);
        o = getObj(s, obj);
        r = r + scale(u, pow2((p - off) * 8)); p += o->cells.find(p)->second.sz;
      } else {
        bool covered = false; for (auto &x : ov) if (x.first <= p && p < x.first + x.second.sz) covered = true;
        if (!covered && o->bgAt(p) == SegZ) p++;
        else ok = false;
      }
    }
    if (ok) return Val::I_(r);
  }
  if (t->isPointerTy() && sz == 8) { bool z = true; for (long p = off; p < off + sz && z; p++) { bool cv = false; for (auto &x : ov) if (x.first <= p && p < x.first + x.second.sz) { cv = true; Lin e = x.second.v.k == Val::Int ? s.res(x.second.v.e) : Lin(1); if (!(e.isConst() && e.c == 0)) z = false; } if (!cv && o->bgAt(p) != SegZ) z = false; } if (z) return Val::null(); }
  return freshVal(s, t, sgn);
}
AVal Engine::toAVal(State &s, const Val &v) {
  AVal a{v.k, v.obj, 0, 0, v.f};
  if (v.k == Val::Int || v.k == Val::Ptr) { Itv b = s.tight(v.e); a.lo = b.lo; a.hi = b.hi; }
  return a;
}
void Engine::weakStore(State &s, Obj &o, long off, int sz, const Val &v) {
  auto &c = o.alts[off];
  if (c.second.empty()) c.first = sz;
  if (c.first != sz) { c.second = {AVal{Val::Top, 0, 0, 0, nullptr}}; return; }
  AVal a = toAVal(s, v);
  for (auto &x : c.second) {
    if (x == a) return;
    if (x.k == a.k && x.k == Val::Int) { x.lo = std::min(x.lo, a.lo); x.hi = std::max(x.hi, a.hi); return; }
    if (x.k == a.k && x.k == Val::Ptr && x.obj == a.obj) { x.lo = std::min(x.lo, a.lo); x.hi = std::max(x.hi, a.hi); return; }
  }
  c.second.push_back(a);
}
static int g_ver = 0;
void Engine::provKill(State &s, Obj &o, const Lin &lo, const Lin &hi) {
  o.ver = ++g_ver;
  if (o.pv.empty()) return;
  vector<Prov> k; for (auto &r : o.pv) {
    if (s.entLe(r.doff + r.n - lo) || s.entLe(hi - r.doff)) { k.push_back(r); continue; }
    // keep the part in front of / behind the overwritten range
    if (s.entLe(r.doff - lo)) { Prov q = r; q.n = s.res(lo - r.doff); if (!(q.n == Lin(0))) k.push_back(q); }
  }
  o.pv = k;
}
void Engine::provAdd(State &s, int d, const Lin &doff, int so, const Lin &soff, const Lin &n, bool both) {
  if (d == so) return;
  const Obj *D = getObj(s, d), *S = getObj(s, so); if (!D || !S || D->summary || S->summary) return;
  vector<Prov> add; add.push_back({doff, n, so, S->ver, soff});
  for (auto &r : S->pv) if (r.src != d) { const Obj *x = getObj(s, r.src); if (!x || x->ver != r.ver) continue; if (s.entLe(r.doff - soff) && s.entLe(soff + n - r.doff - r.n)) add.push_back({doff, n, r.src, r.ver, s.res(r.soff + soff - r.doff)}); }
  if (both && !constObj.count(so)) { Obj &m = s.mo(so); int dv = D->ver; m.pv.push_back({soff, n, d, dv, doff}); }
  if (constObj.count(d)) return;
  Obj &m = s.mo(d); for (auto &r : add) m.pv.push_back(r);
  while (m.pv.size() > 12) m.pv.erase(m.pv.begin());
}
bool Engine::provEq(State &s, const Val &d, const Val &src, const Lin &n0) {
  Lin n = s.res(n0); if (s.entLe(n)) return true;
  if (d.k != Val::Ptr || src.k != Val::Ptr || !d.obj || !src.obj) return false;
  Lin a = s.res(d.e), b = s.res(src.e);
  if (d.obj == src.obj && a == b) return true;
  auto eq = [&](const Lin &e) { Lin x = s.res(e); if (x.isConst()) return x.c == 0; return s.entLe(x) && s.entLe(neg(x)); };
  for (int sw = 0; sw < 2; sw++) {
    const Obj *D = getObj(s, sw ? src.obj : d.obj); int so = sw ? d.obj : src.obj; Lin da = sw ? b : a, sb = sw ? a : b; const Obj *S = getObj(s, so);
    if (!D || !S) return false;
    for (auto &r : D->pv) if (r.src == so && r.ver == S->ver && eq(da - r.doff - sb + r.soff) && s.entLe(r.doff - da) && s.entLe(da + n - r.doff - r.n)) return true;
  }
  // both are copies of the same bytes
  const Obj *D = getObj(s, d.obj), *S = getObj(s, src.obj);
  for (auto &r : D->pv) for (auto &q : S->pv) if (r.src == q.src && r.ver == q.ver && s.entLe(r.doff - a) && s.entLe(a + n - r.doff - r.n) && s.entLe(q.doff - b) && s.entLe(b + n - q.doff - q.n) && eq(r.soff + a - r.doff - q.soff - b + q.doff)) return true;
  // byte for byte
  if (n.isConst() && n.c <= 64 && a.isConst() && b.isConst() && !D->summary && !S->summary) {
    Type *t8 = Type::getInt8Ty(M.getContext());
    for (long k = 0; k < (long)n.c; k++) { State c = s; Val p = loadCell(c, d.obj, (long)a.c + k, 1, t8, false, nullptr), q = loadCell(c, src.obj, (long)b.c + k, 1, t8, false, nullptr); if (p.k != Val::Int || q.k != Val::Int) return false; try { Lin u = canonU(c, p.e, 8), v = canonU(c, q.e, 8); if (c.decEq(u - v) != 1) return false; } catch (Split &) { return false; } }
    return true;
  }
  return false;
}
static void ztail(State &s, Obj &o, const Lin &lo, const Lin &hi, bool zero) {
  if (o.summary) { o.hasZ = false; return; }
  if (zero) { if (s.entLe(o.size - hi)) { if (!(o.hasZ && s.entLe(s.res(o.zfrom) - lo))) { o.hasZ = true; o.zfrom = s.res(lo); } return; } if (o.hasZ && s.entLe(s.res(o.zfrom) - lo)) return; }
  if (!o.hasZ) return;
  Lin z = s.res(o.zfrom); if (s.entLe(hi - z)) return;
  if (s.entLe(z - hi)) o.zfrom = s.res(hi); else o.hasZ = false;
}
// strings inside an object: effect of a write to [lo,hi); what: 0 one NUL byte, 1 one byte that is not NUL, 2 anything
void Engine::smWrite(State &s, Obj &o, const Lin &lo, const Lin &hi, int what) {
  if (o.summary) { o.sm.clear(); return; }
  vector<pair<Lin, Lin>> n; bool hs = o.hasSlen; Lin sl = hs ? s.res(o.slen) : Lin();
  if (hs && what == 0 && s.entLe(addc(lo, 1) - sl)) n.push_back({addc(lo, 1), sl});     // the rest of a string cut in two (the first part is slen)
  for (auto &g : o.sm) {
    Lin a = s.res(g.first), b = s.res(g.second);
    if (s.entLe(hi - a) || s.entLe(addc(b, 1) - lo)) { n.push_back({a, b}); continue; }
    if (what == 1 && s.entLe(addc(lo, 1) - b)) { n.push_back({a, b}); continue; }
    if (what == 0 && s.entLe(a - lo) && s.entLe(lo - b)) { n.push_back({a, lo}); if (s.entLe(addc(lo, 1) - b)) n.push_back({addc(lo, 1), b}); continue; }
  }
  if (n.size() > 6) n.erase(n.begin(), n.end() - 6);
  o.sm = n;
}
bool Engine::smEnd(State &s, const Obj *o, const Lin &off, Lin &end) {
  if (o->summary) return false;
  if (o->hasSlen) { Lin sl = s.res(o->slen); if (s.entLe(off - sl)) { end = sl; return true; } }
  for (auto &g : o->sm) { Lin a = s.res(g.first), b = s.res(g.second); if (s.entLe(a - off) && s.entLe(off - b)) { end = b; return true; } }
  return false;
}
void Engine::storeCell(State &s, int obj, long off, int sz, const Val &v) {
  Obj &o = s.mo(obj); provKill(s, o, Lin(off), Lin(off + sz)); ztail(s, o, Lin(off), Lin(off + sz), v.k == Val::Int && s.res(v.e) == Lin(0));
  if (o.summary) { weakStore(s, o, off, sz, v); return; }
  // remove overlaps (split partially overlapped integer cells into bytes where possible)
  vector<long> rm; vector<pair<long, Val>> add;
  for (auto c = o.cells.lower_bound(off - 64); c != o.cells.end() && c->first < off + sz; ++c) {
    if (c->first + c->second.sz <= off) continue;
    rm.push_back(c->first);
    if (c->first < off || c->first + c->second.sz > off + sz) {
      for (long p = c->first; p < c->first + c->second.sz; p++) if (p < off || p >= off + sz) {
        Lin e = c->second.v.k == Val::Int ? s.res(c->second.v.e) : Lin();
        if (c->second.v.k == Val::Int && e.isConst()) { I b = (e.c >> ((p - c->first) * 8)) & 255; add.push_back({p, Val::I_(Lin(b))}); }
        else if (c->second.v.k == Val::Ptr && c->second.v.obj == 0 && c->second.v.e == Lin(0)) add.push_back({p, Val::I_(Lin(0))});
        else o.setBg(p, p + 1, SegK);
      }
    }
  }
  for (long k : rm) o.cells.erase(k);
  for (auto &a : add) o.cells[a.first] = {1, a.second};
  // symbolic-offset facts
  if (!o.sl.empty()) { vector<SymLoad> keep; for (auto &x : o.sl) if (s.entLe(x.off + Lin(x.sz) - Lin(off)) || s.entLe(Lin(off + sz) - x.off)) keep.push_back(x); o.sl = keep; }
  smWrite(s, o, Lin(off), Lin(off + sz), v.k == Val::Int && sz == 1 ? (s.res(v.e) == Lin(0) ? 0 : s.isNonZero(v.e) ? 1 : 2) : 2);
  if (o.hasSlen) {
    Lin sl = s.res(o.slen);
    if (v.k == Val::Int && sz == 1 && s.res(v.e) == Lin(0)) { if (!s.entLe(sl - Lin(off))) { int x = s.fresh(0, off); Lin n = Lin::sym(x); if (s.entLe(Lin(off) - sl)) n = Lin(off); else s.addLe(n - sl); o.slen = n; } }
    else if (v.k == Val::Int && sz == 1 && s.isNonZero(v.e) && s.entLe(Lin(off + 1) - sl)) {}
    else if (s.entLe(addc(sl, 1) - Lin(off))) {}
    else o.hasSlen = false;
  }
  o.cells[off] = {sz, v};
}
// bytes [lo,hi) of obj become unknown (or zero)
void Engine::invalidate(State &s, int obj, const Lin &lo, const Lin &hi, int bgKind) {
  Obj &o = s.mo(obj);
  provKill(s, o, lo, hi); ztail(s, o, lo, hi, bgKind == SegZ);
  Itv bl = s.tight(lo), bh = s.tight(hi);
  if (o.summary) { if (bgKind == SegK || bgKind == SegZ) for (auto &c : o.alts) { bool has = false; for (auto &x : c.second.second) if (x.k == Val::Top) has = true; if (bgKind == SegZ) { weakStore(s, o, c.first, c.second.first, c.second.first == 8 ? Val::null() : Val::I_(Lin(0))); } else if (!has) c.second.second.push_back(AVal{Val::Top, 0, 0, 0, nullptr}); } return; }
  bool whole = s.entLe(lo) && s.entLe(o.size - hi);
  if (whole) { o.sm.clear(); o.cells.clear(); o.sl.clear(); o.bg = {{0, (uint8_t)bgKind}}; o.hasSlen = false; if (bgKind == SegZ) { o.hasSlen = false; } return; }
  bool exact = s.res(lo).isConst() && s.res(hi).isConst();
  vector<long> rm; vector<pair<long, Val>> add;
  for (auto &c : o.cells) {
    Lin a(c.first), b(c.first + c.second.sz);
    if (bl.lo > NEG && c.first + c.second.sz <= bl.lo) continue;
    if (bh.hi < POS && c.first >= bh.hi) continue;
    if (s.entLe(b - lo) || s.entLe(hi - a)) continue;
    rm.push_back(c.first);
    if (exact) for (long p = c.first; p < c.first + c.second.sz; p++) if (p < bl.lo || p >= bh.hi) {
      Lin e = c.second.v.k == Val::Int ? s.res(c.second.v.e) : Lin();
      if (c.second.v.k == Val::Int && e.isConst()) add.push_back({p, Val::I_(Lin((e.c >> ((p - c.first) * 8)) & 255))});
      else o.setBg(p, p + 1, SegK);
    }
    if (!exact) o.setBg(c.first, c.first + c.second.sz, SegK);
  }
  for (long k : rm) o.cells.erase(k);
  for (auto &a : add) o.cells[a.first] = {1, a.second};
  long from = bl.lo > 0 && bl.lo < BIG ? (long)bl.lo : 0; long to = bh.hi < BIG ? (long)bh.hi : -1;
  if (exact) o.setBg((long)bl.lo, (long)bh.hi, bgKind);
  else {
    // may-written region: anything not already equal becomes unknown
    bool same = o.bgRange(from, to < 0 ? (1L << 40) : to) == bgKind && bgKind != SegU;
    if (!same) o.setBg(from, to, SegK);
  }
  vector<SymLoad> keep; for (auto &x : o.sl) if (s.entLe(x.off + Lin(x.sz) - lo) || s.entLe(hi - x.off)) keep.push_back(x); o.sl = keep;
  smWrite(s, o, lo, hi, 2);
  if (o.hasSlen) {
    if (s.entLe(addc(s.res(o.slen), 1) - lo)) {}        // after the terminator
    else o.hasSlen = false;
  }
}
static bool sgnHint(const Instruction *i, Type *t) {
  if (!t->isIntegerTy()) return true;
  int w = t->getIntegerBitWidth();
  bool sx = false, zx = false, us = false, ss = false;
  for (auto *u : i->users()) {
    if (isa<SExtInst>(u)) sx = true; if (isa<ZExtInst>(u)) zx = true;
    if (auto *c = dyn_cast<ICmpInst>(u)) { if (c->isUnsigned()) us = true; if (c->isSigned()) ss = true; }
    if (auto *b = dyn_cast<BinaryOperator>(u)) { if (b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::UDiv || b->getOpcode() == Instruction::URem) us = true; if (b->getOpcode() == Instruction::AShr || b->getOpcode() == Instruction::SDiv) ss = true; }
  }
  if (w == 8) return sx;
  if (sx || ss) return true; if (zx || us) return false;
  return true;
}
Val Engine::load(State &s, const Val &p, Type *t, const Instruction *i, bool sgn) {
  int sz = typeSize(DL, t);
  if (!access(s, p, Lin(sz), false, i, "read")) return Val();
  Lin off = s.res(p.e);
  const Obj *o = getObj(s, p.obj);
  if (off.isConst()) {
    bool nocell = !o->summary && o->cells.find((long)off.c) == o->cells.end();
    Val r = loadCell(s, p.obj, (long)off.c, sz, t, sgn, i);
    o = getObj(s, p.obj);
    if (sz == 1 && r.k == Val::Int && !o->ro && (o->hasSlen || !o->sm.empty())) {
      Lin e = s.res(r.e), d, en; bool se = smEnd(s, o, off, en); d = off - en;
      if (se) {
        if (e.isConst() && e.c == 0) { if (!s.addEq(d)) throw Die(); }
        else if (s.isNonZero(e)) { if (!s.addLe(addc(d, 1))) throw Die(); }
        else if (e.t.size() == 1 && e.c == 0 && e.t[0].second == 1) { bool f = false; for (auto &b : s.bf) if (b.sym == e.t[0].first) f = true; if (!f) { s.bf.push_back({e.t[0].first, d}); if (!s.fire()) throw Die(); } }
      }
    }
    return r;
  }
  if (o->summary) return freshVal(s, t, sgn);
  for (auto &x : o->sl) if (x.sz == sz && s.res(x.off) == off) { Val r = x.v;
    if (sz == 1 && r.k == Val::Int && (o->hasSlen || !o->sm.empty())) { Lin e = s.res(r.e), d, en; if (smEnd(s, o, off, en)) { d = off - en;
        if (e.isConst() && e.c == 0) { if (!s.addEq(d)) throw Die(); }
        else if (s.isNonZero(e)) { if (!s.addLe(addc(d, 1))) throw Die(); }
        else if (e.t.size() == 1 && e.c == 0 && e.t[0].second == 1) { bool f = false; for (auto &b : s.bf) if (b.sym == e.t[0].first) f = true; if (!f) { s.bf.push_back({e.t[0].first, d}); if (!s.fire()) throw Die(); } } } }
    return r; }
  // small constant tables: enumerate
  Itv b = s.tight(off);
  if (o->ro || !o->cells.empty()) {
    if (b.lo > NEG && b.hi < POS && (b.hi - b.lo) / std::max(sz, 1) <= 70 && !o->cells.empty()) {
      // only if index really may hit cells
      bool hit = false; for (auto &c : o->cells) if (c.first + c.second.sz > b.lo && c.first < b.hi + sz) { hit = true; break; }
      if (hit) throwEnum(s, off);
    }
  }
  if (o->cells.empty() && o->bg.size() == 1 && o->bg[0].k == SegZ && o->sl.empty()) return t->isPointerTy() ? Val::null() : Val::I_(Lin(0));
  if (o->cells.empty() && o->bg.size() == 1 && o->bg[0].k == SegU && o->sl.empty()) return Val();
  if (o->ro && t->isIntegerTy()) {
    I lo = 0, hi = 0; bool first = true, ok = true;
    for (auto &c : o->cells) if (c.second.sz == sz && c.second.v.k == Val::Int && c.second.v.e.isConst()) { I x = c.second.v.e.c; if (!sgn && x < 0) x += pow2(sz * 8); if (first) { lo = hi = x; first = false; } lo = std::min(lo, x); hi = std::max(hi, x); } else ok = false;
    if (ok && !first) { if (o->bg.size() != 1 || o->bg[0].k == SegZ) { lo = std::min(lo, (I)0); hi = std::max(hi, (I)0); } Val v = Val::I_(Lin::sym(s.fresh(lo, hi))); 
      if (sz == 1 && o->hasSlen) { Lin d = off - o->slen; if (s.entLe(d)) { s.bf.push_back({v.e.t[0].first, d}); } }
      return v; }
  }
  if (o->hasZ && t->isIntegerTy() && s.entLe(s.res(o->zfrom) - off)) return Val::I_(Lin(0));
  Val v; if (!provLoad(s, p.obj, off, sz, t, sgn, i, v)) v = freshVal(s, t, sgn);
  o = getObj(s, p.obj);
  if (!constObj.count(p.obj)) { Obj &m = s.mo(p.obj); if (m.sl.size() > 24) m.sl.erase(m.sl.begin()); m.sl.push_back({off, sz, v}); }
  if (sz == 1 && (o->hasSlen || !o->sm.empty()) && v.k == Val::Int && v.e.t.size() == 1) {
    Lin en, d; bool se = smEnd(s, o, off, en); d = off - en;
    if (se) { s.bf.push_back({v.e.t[0].first, d}); if (!s.fire()) throw Die(); }
  }
  return v;
}
void Engine::store(State &s, const Val &p, const Val &v, Type *t, const Instruction *i) {
  int sz = typeSize(DL, t);
  if (!access(s, p, Lin(sz), true, i, "write")) return;
  Lin off = s.res(p.e);
  if (off.isConst()) { storeCell(s, p.obj, (long)off.c, sz, v); return; }
  Obj &o0 = s.mo(p.obj);
  bool hs = o0.hasSlen; Lin sl = hs ? s.res(o0.slen) : Lin();
  bool zero = v.k == Val::Int && sz == 1 && s.res(v.e) == Lin(0), nz = v.k == Val::Int && sz == 1 && s.isNonZero(v.e);
  smWrite(s, o0, off, off + Lin(sz), zero ? 0 : nz ? 1 : 2); auto keepsm = o0.sm;
  invalidate(s, p.obj, off, off + Lin(sz));
  Obj &o = s.mo(p.obj); o.sm = keepsm;
  if (!o.summary) o.sl.push_back({off, sz, v});
  if (zero) {
    if (hs && s.entLe(sl - off)) { o.hasSlen = true; o.slen = sl; }
    else { Itv b = s.tight(off); Lin n = Lin::sym(s.fresh(0, b.hi)); o.hasSlen = true; o.slen = n; s.addLe(n - off); if (hs) s.addLe(n - sl); if (hs && s.entLe(off - sl)) { s.addEq(n - off); } }
  } else if (nz && hs && s.entLe(addc(off, 1) - sl)) { o.hasSlen = true; o.slen = sl; }
}
void Engine::copyRange(State &s, int d, const Lin &doff0, int so, const Lin &soff0, const Lin &n0) {
  Lin doff = s.res(doff0), soff = s.res(soff0), n = s.res(n0);
  if (doff.isConst() && soff.isConst() && n.isConst()) {
    const Obj *S = getObj(s, so);
    if (getObj(s, d)->summary) { invalidate(s, d, doff, doff + n); return; }
    if (!S->summary) {
      long a = (long)soff.c, len = (long)n.c, b = (long)doff.c;
      map<long, Cell> cs; for (auto &c : S->cells) if (c.first >= a && c.first + c.second.sz <= a + len) cs[c.first - a + b] = c.second;
      vector<pair<long, Val>> part;
      for (auto &c : S->cells) if (c.first + c.second.sz > a && c.first < a + len && !(c.first >= a && c.first + c.second.sz <= a + len)) {
        for (long p = std::max(a, c.first); p < std::min(a + len, c.first + (long)c.second.sz); p++) {
          if (c.second.v.k == Val::Int) { Lin e = s.res(c.second.v.e); if (e.isConst()) { part.push_back({p - a + b, Val::I_(Lin((e.c >> ((p - c.first) * 8)) & 255))}); continue; } }
          part.push_back({p - a + b, Val::top()});
        }
      }
      vector<Seg> segs; segs.push_back({b, S->bgAt(a)}); for (auto &x : S->bg) if (x.s > a && x.s < a + len) segs.push_back({x.s - a + b, x.k});
      bool hs = S->hasSlen; Lin sl = S->slen; 
      invalidate(s, d, doff, doff + n);
      Obj &D = s.mo(d);
      for (size_t i = 0; i < segs.size(); i++) D.setBg(segs[i].s, i + 1 < segs.size() ? segs[i + 1].s : b + len, segs[i].k);
      for (auto &c : cs) D.cells[c.first] = c.second;
      for (auto &c : part) if (c.second.k == Val::Int) D.cells[c.first] = {1, c.second}; else D.setBg(c.first, c.first + 1, SegK);
      if (hs && b == 0 && a == 0 && s.entLe(addc(s.res(sl), 1) - n)) { D.hasSlen = true; D.slen = sl; }
      provAdd(s, d, doff, so, soff, n, false);
      return;
    }
  }
  const Obj *S = getObj(s, so); bool hs = S->hasSlen; Lin sl = hs ? s.res(S->slen) : Lin();
  vector<SymLoad> by; Type *t8 = Type::getInt8Ty(M.getContext());
  // short copies keep the individual bytes
  if (n.isConst() && n.c <= 8 && !S->summary) for (long k = 0; k < (long)n.c; k++) {
    Lin o = addc(soff, k); Val v;
    if (o.isConst()) v = loadCell(s, so, (long)o.c, 1, t8, false, nullptr);
    else { bool f = false; for (auto &x : S->sl) if (x.sz == 1 && s.res(x.off) == o) { v = x.v; f = true; break; } if (!f) continue; }
    if (v.k == Val::Int) by.push_back({addc(doff, k), 1, v});
    S = getObj(s, so);
  }
  invalidate(s, d, doff, doff + n);
  if (!getObj(s, d)->summary) for (auto &x : by) { if (x.off.isConst()) storeCell(s, d, (long)x.off.c, 1, x.v); else s.mo(d).sl.push_back(x); }
  provAdd(s, d, doff, so, soff, n, false);
  Obj &D = s.mo(d);
  if (hs && s.entLe(soff - sl) && s.entLe(sl - soff + Lin(1) - n) && doff == Lin(0)) { D.hasSlen = true; D.slen = sl - soff; }
}
void Engine::doMemset(State &s, const Val &d, const Val &c, const Lin &n, const Instruction *i) {
  if (!access(s, d, n, true, i, "memset")) return;
  Lin off = s.res(d.e), m = s.res(n);
  Lin cv = c.k == Val::Int ? s.res(c.e) : Lin(1);
  bool zero = cv == Lin(0);
  if (zero) {
    invalidate(s, d.obj, off, off + m, SegZ);
    Obj &o = s.mo(d.obj);
    if (!o.hasSlen && !o.summary && !(o.bg.size() == 1 && o.bg[0].k == SegZ)) { if (s.entLe(Lin(1) - m)) { Itv b = s.tight(off); if (b.hi < POS) { Lin l = Lin::sym(s.fresh(0, b.hi)); o.hasSlen = true; o.slen = l; s.addLe(l - off); } } }
  } else invalidate(s, d.obj, off, off + m, SegK);
}
void Engine::doMemcpy(State &s, const Val &d, const Val &src, const Lin &n0, const Instruction *i) {
  Lin n = s.res(n0);
  bool a = access(s, src, n, false, i, "copy source");
  bool b = access(s, d, n, true, i, "copy destination");
  if (!a || !b) return;
  copyRange(s, d.obj, d.e, src.obj, src.e, n);
}
// length of the C string at p; raises an alarm when no terminator is known inside the object
Lin Engine::strLenOf(State &s, const Val &p, const Instruction *i) {
  access(s, p, Lin(1), false, i, "string read");
  const Obj *o = getObj(s, p.obj); Lin off = s.res(p.e);
  oblig("string-terminated", i);
  if (off.isConst() && !o->summary) {
    // scan constant bytes
    long k = (long)off.c; long st = k; bool ok = true;
    while (ok) {
      auto c = o->cells.find(k);
      if (c != o->cells.end() && c->second.sz == 1 && c->second.v.k == Val::Int) {
        Lin e = s.res(c->second.v.e);
        if (e.isConst()) { if (e.c == 0) return Lin(k - st); k++; continue; }
        if (s.isNonZero(e)) { k++; continue; }
        ok = false; break;
      }
      if (c == o->cells.end() && o->bgAt(k) == SegZ) { bool cov = false; for (auto &x : o->cells) if (x.first < k && x.first + x.second.sz > k) cov = true; if (!cov && s.entLe(Lin(k + 1) - o->size)) return Lin(k - st); }
      ok = false;
    }
  }
  if (o->hasSlen) { Lin sl = s.res(o->slen); if (s.entLe(off - sl)) return sl - off; }
  { Lin en; if (smEnd(s, o, off, en)) return en - off; }
  if (o->hasSlen) { Lin sl = s.res(o->slen); int d = s.decLe(off - sl); if (d < 0) throw Split{false, off - sl}; }
  for (auto &g : o->sm) { Lin a = s.res(g.first), b = s.res(g.second); if (s.entLe(addc(b, 1) - off)) continue; int d = s.decLe(off - b); if (d == 0) continue; int e = s.decLe(a - off); if (e == 0) continue; if (d < 0) throw Split{false, off - b}; throw Split{false, a - off}; }
  // some definitely zero byte at or after off ?
  I best = POS;
  if (!o->summary) {
    for (auto &c : o->cells) if (c.second.sz == 1 && c.second.v.k == Val::Int && s.res(c.second.v.e) == Lin(0) && s.entLe(off - Lin(c.first))) best = std::min(best, (I)c.first);
    for (size_t k = 0; k < o->bg.size(); k++) if (o->bg[k].k == SegZ) {
      long z = o->bg[k].s, e = k + 1 < o->bg.size() ? o->bg[k + 1].s : -1;
      if (off.isConst() && off.c > z) z = (long)off.c; if (e >= 0 && z >= e) continue;
      bool cov = true; for (int tr = 0; tr < 4096 && (e < 0 || z < e); tr++) { auto x = o->cells.upper_bound(z); cov = false; if (x != o->cells.begin()) { --x; if (x->first + x->second.sz > z) { cov = true; z = x->first + x->second.sz; continue; } } break; }
      if (!cov && s.entLe(off - Lin(z)) && s.entLe(Lin(z + 1) - o->size)) best = std::min(best, (I)z);
    }
    for (auto &x : o->sl) if (x.sz == 1 && x.v.k == Val::Int && s.res(x.v.e) == Lin(0) && s.entLe(off - x.off)) { Lin r = Lin::sym(s.fresh(0, POS)); s.addLe(r - (x.off - off)); return s.res(r); }
  }
  if (best < POS) { Lin r = Lin::sym(s.fresh(0, POS)); s.addLe(r + off - Lin(best)); return s.res(r); }
  if (o->cells.empty() && o->bg.size() == 1 && o->bg[0].k == SegZ && o->sl.empty()) return Lin(0);
  alarm(s, i, "unterminated", "string in " + o->name + " may lack a terminator");
  Lin r = Lin::sym(s.fresh(0, POS)); s.addLe(r + off + Lin(1) - o->size); if (s.dead) throw Die();
  return s.res(r);
}
void Engine::initGlobal(Obj &o, const Constant *c, long off) {
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { long n = DL.getTypeAllocSize(c->getType()); o.setBg(off, off + n, SegZ); return; }
  if (isa<UndefValue>(c)) { return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) { o.cells[off] = {(int)DL.getTypeStoreSize(c->getType()), Val::I_(Lin((I)ci->getSExtValue()))}; return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    int es = DL.getTypeAllocSize(cd->getElementType());
    for (unsigned k = 0; k < cd->getNumElements(); k++) if (cd->getElementType()->isIntegerTy()) o.cells[off + k * es] = {es, Val::I_(Lin((I)cast<ConstantInt>(cd->getElementAsConstant(k))->getSExtValue()))};
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(c->getType())) { auto *sl = DL.getStructLayout(st); for (unsigned k = 0; k < ca->getNumOperands(); k++) initGlobal(o, ca->getOperand(k), off + sl->getElementOffset(k)); }
    else { long es = DL.getTypeAllocSize(ca->getOperand(0)->getType()); for (unsigned k = 0; k < ca->getNumOperands(); k++) initGlobal(o, ca->getOperand(k), off + k * es); }
    return;
  }
  if (c->getType()->isPointerTy()) { State tmp; Frame f; Val v;
    if (auto *g = dyn_cast<GlobalVariable>(c)) { if (gobj.count(g)) v = Val::P(gobj[g]); else v = Val::top(); }
    else if (auto *fn = dyn_cast<Function>(c)) v = Val::F(fn);
    else { APInt ofs(64, 0); if (auto *g = dyn_cast<GEPOperator>(c)) { if (g->accumulateConstantOffset(DL, ofs) && gobj.count(g->getPointerOperand())) v = Val::P(gobj[g->getPointerOperand()], Lin((I)ofs.getSExtValue())); else v = Val::top(); } else v = Val::top(); }
    o.cells[off] = {8, v}; return; }
  long n = DL.getTypeAllocSize(c->getType()); o.setBg(off, off + n, SegK);
}

// ------------------------------------------------------------------ instructions
bool Engine::step(State &s, const Instruction *i) {
  if (isa<DbgInfoIntrinsic>(i)) return true;
  switch (i->getOpcode()) {
  case Instruction::Alloca: {
    auto *a = cast<AllocaInst>(i); Lin n(1);
    if (a->isArrayAllocation()) { Val v = eval(s, a->getArraySize()); n = v.k == Val::Int ? canonU(s, v.e, 64) : Lin(1); }
    long es = DL.getTypeAllocSize(a->getAllocatedType());
    int id = newObj(s, Obj::Stack, scale(n, es), i, (i->getFunction()->getName() + "." + (i->hasName() ? i->getName() : "local")).str(), SegU);
    s.F().allocas.push_back({i, id});
    set_(s, i, Val::P(id)); return true;
  }
  case Instruction::Load: {
    auto *l = cast<LoadInst>(i); Val p = eval(s, l->getPointerOperand());
    Val v = load(s, p, l->getType(), i, sgnHint(i, l->getType())); set_(s, i, v); return true;
  }
  case Instruction::Store: {
    auto *st = cast<StoreInst>(i); Val v = eval(s, st->getValueOperand()), p = eval(s, st->getPointerOperand());
    store(s, p, v, st->getValueOperand()->getType(), i); return true;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(i); Val b = eval(s, g->getPointerOperand());
    Lin off(0);
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      if (StructType *st = gi.getStructTypeOrNull()) { off.c += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
      else {
        Val x = eval(s, gi.getOperand()); long es = DL.getTypeAllocSize(gi.getIndexedType());
        if (x.k == Val::Undef) { alarm(s, i, "uninit", "array index is uninitialised"); set_(s, i, Val::top()); return true; }
        if (x.k != Val::Int) { set_(s, i, Val::top()); return true; }
        Lin e = canonS(s, x.e, gi.getOperand()->getType()->getIntegerBitWidth());
        off = off + scale(e, es);
      }
    }
    if (b.k == Val::Ptr) { b.e = s.res(b.e) + off; set_(s, i, b); }
    else set_(s, i, b.k == Val::Undef ? Val() : Val::top());
    return true;
  }
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(i); Val a = eval(s, c->getOperand(0)), b = eval(s, c->getOperand(1));
    bool ptr = c->getOperand(0)->getType()->isPointerTy(); int w = ptr ? 64 : c->getOperand(0)->getType()->getIntegerBitWidth();
    bool cd = false; int r = icmp(s, c->getPredicate(), a, b, w, ptr, i, cd);
    if (cd && !lctx.empty() && lctx.back()->exitCmps->count(i)) {
      string k = std::to_string((int)a.k) + ":" + std::to_string(a.obj) + ":" + a.e.str() + "|" + std::to_string(b.obj) + ":" + b.e.str();
      if (lctx.back()->seen[i].insert(k).second && lctx.back()->seen[i].size() > 1) lctx.back()->progress = true;
    }
    set_(s, i, Val::I_(Lin(r))); return true;
  }
  case Instruction::Select: {
    Val c = eval(s, i->getOperand(0));
    if (c.k == Val::Int) { c.e = s.res(c.e); if (!c.e.isConst()) throw Split{true, c.e}; set_(s, i, eval(s, i->getOperand((c.e.c & 1) ? 1 : 2))); return true; }
    throw ForkVals{{eval(s, i->getOperand(1)), eval(s, i->getOperand(2))}};
  }
  case Instruction::ZExt: case Instruction::SExt: {
    Val v = eval(s, i->getOperand(0)); int w = i->getOperand(0)->getType()->getIntegerBitWidth();
    if (v.k == Val::Int) v.e = i->getOpcode() == Instruction::ZExt ? canonU(s, v.e, w) : canonS(s, v.e, w);
    set_(s, i, v); return true;
  }
  case Instruction::Trunc: {
    Val v = eval(s, i->getOperand(0)); if (v.k == Val::Ptr) v = Val::top();
    if (v.k == Val::Int && i->getType()->isIntegerTy(1)) { Lin r = divmod(s, v.e, 2).second; v = Val::I_(r); }
    set_(s, i, v); return true;
  }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: set_(s, i, eval(s, i->getOperand(0))); return true;
  case Instruction::PtrToInt: { Val v = eval(s, i->getOperand(0)); if (v.k == Val::Ptr) v = Val::I_(toInt(s, v, i, 64)); else if (v.k == Val::Fn) v = Val::top(); set_(s, i, v); return true; }
  case Instruction::IntToPtr: {
    Val v = eval(s, i->getOperand(0));
    if (v.k == Val::Int) { Lin e = s.res(v.e); Val r = Val::top(); if (e.isConst()) r = Val::P(0, e);
      else for (auto &m : s.mem) if (m.second->addr && e.coef(m.second->addr) == 1) { r = Val::P(m.first, e - Lin::sym(m.second->addr)); break; }
      set_(s, i, r); } else set_(s, i, v.k == Val::Ptr ? v : Val::top());
    return true;
  }
  case Instruction::FPToSI: case Instruction::FPToUI: set_(s, i, freshVal(s, i->getType(), i->getOpcode() == Instruction::FPToSI)); return true;
  case Instruction::FCmp: throw ForkVals{{Val::I_(Lin(0)), Val::I_(Lin(1))}};
  default: break;
  }
  if (auto *b = dyn_cast<BinaryOperator>(i)) {
    if (!b->getType()->isIntegerTy()) { set_(s, i, Val::top()); return true; }
    Val r = binop(s, b->getOpcode(), eval(s, b->getOperand(0)), eval(s, b->getOperand(1)), b->getType()->getIntegerBitWidth(), i);
    if (s.dead) throw Die();
    set_(s, i, r); return true;
  }
  if (!i->getType()->isVoidTy()) set_(s, i, i->getType()->isIntegerTy() ? freshVal(s, i->getType()) : Val::top());
  return true;
}
