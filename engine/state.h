// Abstract state: linear-inequality numeric domain + points-to/cell memory.
#pragma once
#include "lin.h"
#include <memory>
#include <set>
#include <unordered_map>
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

using std::vector; using std::map; using std::pair; using std::shared_ptr; using std::string; using std::make_shared;

extern int g_nextSym; extern int g_nextObj; extern long g_lp, g_queries;

struct Val {
  enum K : uint8_t { Undef, Int, Ptr, Fn, Top } k = Undef;
  int obj = 0;              // Ptr: object id, 0 = null
  Lin e;                    // Int: value (congruent mod 2^w);  Ptr: byte offset
  const llvm::Function *f = nullptr;
  static Val I_(const Lin &l) { Val v; v.k = Int; v.e = l; return v; }
  static Val P(int o, const Lin &l = Lin()) { Val v; v.k = Ptr; v.obj = o; v.e = l; return v; }
  static Val null() { return P(0); }
  static Val F(const llvm::Function *f) { Val v; v.k = Fn; v.f = f; return v; }
  static Val top() { Val v; v.k = Top; return v; }
  bool isNull() const { return k == Ptr && obj == 0 && e.isConst() && e.c == 0; }
  bool operator==(const Val &o) const { return k == o.k && obj == o.obj && e == o.e && f == o.f; }
};

enum { SegU = 0, SegZ = 1, SegK = 2 };
struct Seg { long s; uint8_t k; bool operator==(const Seg &o) const { return s == o.s && k == o.k; } };
struct Cell { int sz; Val v; };
struct SymLoad { Lin off; int sz; Val v; };
struct Prov { Lin doff, n; int src; int ver; Lin soff; };   // bytes [doff,doff+n) equal those of object src (version ver) at soff
struct AVal { Val::K k; int obj; I lo, hi; const llvm::Function *f;      // summary alternatives (non relational)
  bool operator==(const AVal &o) const { return k == o.k && obj == o.obj && lo == o.lo && hi == o.hi && f == o.f; } };

struct Obj {
  enum K : uint8_t { Global, Stack, Heap, Ext } kind = Ext;
  int id = 0;
  Lin size;
  bool live = true, ro = false, summary = false, released = false;
  bool ghost = false;
  int tag = 0;                     // allocator tag (which pool etc.)
  const llvm::Value *site = nullptr;
  const llvm::Instruction *freedAt = nullptr;
  vector<Seg> bg{{0, SegU}};
  map<long, Cell> cells;
  vector<SymLoad> sl;
  vector<Prov> pv; int ver = 0;
  bool hasSlen = false; Lin slen;
  vector<pair<Lin, Lin>> sm;       // further strings inside the object: no NUL in [first,second), NUL at second
  bool hasZ = false; Lin zfrom;    // every byte from zfrom to the end of the object is zero
  int addr = 0;
  map<long, pair<int, vector<AVal>>> alts;   // summary cells
  string name;
  uint8_t bgAt(long o) const { uint8_t k = bg[0].k; for (auto &s : bg) { if (s.s > o) break; k = s.k; } return k; }
  // uniform background over [a,b) ? kind : -1
  int bgRange(long a, long b) const {
    int k = bgAt(a); for (auto &s : bg) if (s.s > a && s.s < b && s.k != k) return -1; return k;
  }
  void setBg(long a, long b, uint8_t k) {   // b<0 : infinity
    vector<Seg> n; uint8_t after = b >= 0 ? bgAt(b) : k;
    for (auto &s : bg) if (s.s < a) n.push_back(s);
    n.push_back({a, k});
    if (b >= 0) { n.push_back({b, after}); for (auto &s : bg) if (s.s > b) n.push_back(s); }
    vector<Seg> m; for (auto &s : n) if (m.empty() || m.back().k != s.k) m.push_back(s);
    bg = m;
  }
};

struct Frame {
  const llvm::Function *F = nullptr;
  map<int, Val> env;                     // value number -> Val
  vector<pair<const llvm::Value *, int>> allocas;
  const llvm::CallBase *site = nullptr;  // call site in this frame currently executing
  int exactLoop = -1;
};

struct Trace { shared_ptr<Trace> prev; const llvm::Instruction *i; int note; };

struct BFact { int sym; Lin diff; };     // symbol is a string byte; diff = off - slen <= 0
struct VN { int op; Lin a, b; Lin r; };

struct State {
  vector<shared_ptr<Frame>> fr;
  map<int, shared_ptr<Obj>> mem;
  vector<pair<int, Itv>> syms;
  vector<Lin> cons, neqs;
  map<int, Lin> sub;
  vector<BFact> bf;
  vector<VN> vn;
  shared_ptr<Trace> tr;
  bool dead = false;
  uint64_t hash = 0;

  Frame &F() { auto &p = fr.back(); if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
  Frame &F(int i) { auto &p = fr[i]; if (p.use_count() > 1) p = make_shared<Frame>(*p); return *p; }
  const Frame &cF() const { return *fr.back(); }
  const Obj *co(int id) const { auto it = mem.find(id); return it == mem.end() ? nullptr : it->second.get(); }
  Obj &mo(int id) { auto &p = mem[id]; if (p.use_count() > 1) p = make_shared<Obj>(*p); return *p; }

  // ---- symbols -----------------------------------------------------------
  int fresh(I lo, I hi) { int s = ++g_nextSym; syms.push_back({s, Itv{lo, hi}}); if (lo == hi) { sub[s] = Lin(lo); } return s; }
  Itv *itvp(int s) {
    auto it = std::lower_bound(syms.begin(), syms.end(), s, [](const pair<int, Itv> &a, int b) { return a.first < b; });
    if (it == syms.end() || it->first != s) return nullptr; return &it->second;
  }
  const Itv *citv(int s) const { return const_cast<State *>(this)->itvp(s); }
  Lin res(const Lin &e) const {
    if (e.t.empty() || sub.empty()) return e;
    bool any = false; for (auto &p : e.t) if (sub.count(p.first)) { any = true; break; }
    if (!any) return e;
    Lin r(e.c);
    for (auto &p : e.t) { auto it = sub.find(p.first); if (it != sub.end()) r = addmul(r, it->second, p.second); else r = addmul(r, Lin::sym(p.first), p.second); }
    return r;
  }
  Itv bounds(const Lin &e0) const {
    Lin e = res(e0); Itv r; r.lo = r.hi = e.c;
    for (auto &p : e.t) {
      const Itv *v = citv(p.first); I lo = v ? v->lo : NEG, hi = v ? v->hi : POS;
      I a = p.second > 0 ? lo : hi, b = p.second > 0 ? hi : lo;
      if (r.lo > NEG) { if (a <= NEG || a >= POS) r.lo = NEG; else r.lo += p.second * a; }
      if (r.hi < POS) { if (b >= POS || b <= NEG) r.hi = POS; else r.hi += p.second * b; }
    }
    return r;
  }
  bool setItv(int s, I lo, I hi, bool &chg) {
    Itv *v = itvp(s); if (!v) { dead = true; return false; }
    if (lo > v->lo) { v->lo = lo; chg = true; }
    if (hi < v->hi) { v->hi = hi; chg = true; }
    // shave disequalities at the borders
    bool again = chg && !neqs.empty();
    while (again) {
      again = false;
      for (auto &n : neqs) if (n.t.size() == 1 && n.t[0].first == s && iabs(n.t[0].second) == 1) {
        I x = -n.c * n.t[0].second;
        if (x == v->lo) { v->lo++; again = true; }
        if (x == v->hi) { v->hi--; again = true; }
      }
    }
    if (v->lo > v->hi) { dead = true; return false; }
    if (v->lo == v->hi && !sub.count(s)) { Lin k(v->lo); return doSub(s, k); }
    return true;
  }
  bool doSub(int s, const Lin &L) {
    sub[s] = L;
    for (auto &p : sub) if (p.second.has(s)) p.second = subst1(p.second, s, L);
    Itv v{NEG, POS}; if (Itv *p = itvp(s)) v = *p;
    vector<Lin> redo, keep;
    for (auto &c : cons) if (c.has(s)) redo.push_back(subst1(c, s, L)); else keep.push_back(c);
    cons.swap(keep);
    vector<Lin> nn; nn.swap(neqs);
    for (auto &n : nn) neqs.push_back(n.has(s) ? subst1(n, s, L) : n);
    vector<Lin> nn2; nn2.swap(neqs);
    for (auto &n : nn2) { if (n.isConst()) { if (n.c == 0) { dead = true; return false; } continue; } neqs.push_back(n); }
    if (!L.isConst()) {
      if (v.lo > NEG) if (!addLe(Lin(v.lo) - L)) return false;
      if (v.hi < POS) if (!addLe(L - Lin(v.hi))) return false;
    }
    for (auto &c : redo) if (!addLe(c)) return false;
    return fire();
  }
  bool isNonZero(const Lin &e0) const {
    Lin e = res(e0); if (e.isConst()) return e.c != 0;
    Itv b = bounds(e); if (b.lo > 0 || b.hi < 0) return true;
    Lin m = neg(e);
    for (auto &n : neqs) if (n == e || n == m) return true;
    return false;
  }
  bool fire() {
    for (size_t i = 0; i < bf.size(); i++) {
      Lin x = res(Lin::sym(bf[i].sym));
      if (x.isConst() && x.c == 0) { Lin d = bf[i].diff; bf.erase(bf.begin() + i); if (!addEq(d)) return false; i = (size_t)-1; continue; }
      if (isNonZero(x)) { Lin d = bf[i].diff; bf.erase(bf.begin() + i); if (!addLe(addc(d, 1))) return false; i = (size_t)-1; continue; }
    }
    return true;
  }
  // normalise a <= 0 constraint
  static Lin norm(Lin e) {
    if (e.t.empty()) return e;
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (g > 1) { for (auto &p : e.t) p.second /= g; e.c = ceildiv(e.c, g); }
    return e;
  }
  bool addLe(const Lin &e0) {          // assume e <= 0
    if (dead) return false;
    Lin e = norm(res(e0));
    if (e.isConst()) { if (e.c > 0) { dead = true; return false; } return true; }
    bool chg = false;
    if (e.t.size() == 1) {
      I k = e.t[0].second; int s = e.t[0].first;
      if (k > 0) { if (!setItv(s, NEG, floordiv(-e.c, k), chg)) return false; }
      else { if (!setItv(s, ceildiv(e.c, -k), POS, chg)) return false; }
      if (chg) return propagate() && fire();
      return true;
    }
    Itv b = bounds(e);
    if (b.hi <= 0) return true;
    if (b.lo > 0) { dead = true; return false; }
    // opposite constraint present -> equality
    Lin m = neg(e);
    for (size_t i = 0; i < cons.size(); i++) {
      if (cons[i].t == e.t) { if (cons[i].c >= e.c) return true; cons.erase(cons.begin() + i); i--; continue; }
      if (cons[i].t == m.t) {
        if (cons[i].c + e.c > 0) { dead = true; return false; }
        if (cons[i].c + e.c == 0) { cons.erase(cons.begin() + i); return addEq(e); }
      }
    }
    // e and ( != 0 ) -> strict
    for (auto &n : neqs) if (n == e || n == m) { Lin e2 = addc(e, 1); cons.push_back(norm(e2)); return propagate() && fire(); }
    cons.push_back(e);
    return propagate() && fire();
  }
  bool propagate() {
    for (int pass = 0; pass < 4; pass++) {
      bool chg = false;
      for (size_t ci = 0; ci < cons.size(); ci++) {
        Lin e = cons[ci];
        if (e.t.size() > 6) continue;
        Itv b = bounds(e);
        if (b.lo > 0) { dead = true; return false; }
        if (b.lo <= NEG && e.t.size() > 1) {
          // at most one unbounded term may be tightened
          int unb = 0; for (auto &p : e.t) { const Itv *v = citv(p.first); I x = !v ? NEG : p.second > 0 ? v->lo : v->hi; if (x <= NEG || x >= POS) unb++; }
          if (unb > 1) continue;
        }
        for (auto &p : e.t) {
          const Itv *v = citv(p.first); if (!v) continue;
          // rest minimum
          I rest = e.c; bool ok = true;
          for (auto &q : e.t) if (q.first != p.first) { const Itv *w = citv(q.first); I x = !w ? NEG : q.second > 0 ? w->lo : w->hi; if (x <= NEG || x >= POS) { ok = false; break; } rest += q.second * x; }
          if (!ok) continue;
          bool c2 = false;
          if (p.second > 0) { I h = floordiv(-rest, p.second); if (h < v->hi) { if (!setItv(p.first, NEG, h, c2)) return false; } }
          else { I l = ceildiv(rest, -p.second); if (l > v->lo) { if (!setItv(p.first, l, POS, c2)) return false; } }
          if (c2) { chg = true; if (ci >= cons.size() || cons[ci] != e) break; }
        }
      }
      if (!chg) break;
    }
    return !dead;
  }
  bool addEq(const Lin &e0) {
    if (dead) return false;
    Lin e = res(e0);
    if (e.isConst()) { if (e.c != 0) { dead = true; return false; } return true; }
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (e.c % g != 0) { dead = true; return false; }
    if (g > 1) { for (auto &p : e.t) p.second /= g; e.c /= g; }
    Itv b = bounds(e); if (b.lo > 0 || b.hi < 0) { dead = true; return false; }
    for (auto &n : neqs) if (n == e || n == neg(e)) { dead = true; return false; }
    if (e.t.size() == 1) { I x = -e.c * e.t[0].second; bool c = false; if (!setItv(e.t[0].first, x, x, c)) return false; return propagate() && fire(); }
    for (int i = (int)e.t.size() - 1; i >= 0; i--) if (iabs(e.t[i].second) == 1) {
      int s = e.t[i].first; I k = e.t[i].second;
      Lin r = e; r.t.erase(r.t.begin() + i);
      r = scale(r, -k);             // s = -k*rest  (k = +-1)
      return doSub(s, r) && propagate() && fire();
    }
    Lin m = neg(e);
    cons.push_back(e); cons.push_back(m);
    return propagate() && fire();
  }
  bool addNe(const Lin &e0) {
    if (dead) return false;
    Lin e = res(e0);
    if (e.isConst()) { if (e.c == 0) { dead = true; return false; } return true; }
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (e.c % g != 0) return true;
    if (g > 1) { for (auto &p : e.t) p.second /= g; e.c /= g; }
    Itv b = bounds(e);
    if (b.lo > 0 || b.hi < 0) return true;
    if (b.lo == 0) return addLe(addc(neg(e), 1));
    if (b.hi == 0) return addLe(addc(e, 1));
    Lin m = neg(e);
    for (auto &n : neqs) if (n == e || n == m) return true;
    if (e.t.size() > 1) {
      if (entLe(e)) return addLe(addc(e, 1));
      if (entLe(m)) return addLe(addc(m, 1));
    }
    neqs.push_back(e);
    return fire();
  }
  // upper bound of e through the LP relaxation
  I lpUb(const Lin &e0, bool *infeas = nullptr) const {
    Lin e = res(e0); Itv b = bounds(e);
    if (e.t.size() == 0) return e.c;
    // relevant constraints
    std::set<int> S; for (auto &p : e.t) S.insert(p.first);
    vector<char> in(cons.size(), 0); vector<int> rows; bool grow = true;
    for (int depth = 0; depth < 6 && grow; depth++) {
      grow = false; std::set<int> add;
      for (size_t i = 0; i < cons.size(); i++) if (!in[i]) {
        bool hit = false; for (auto &p : cons[i].t) if (S.count(p.first)) { hit = true; break; }
        if (!hit) continue;
        if (iabs(cons[i].c) > BIG) continue;
        if (rows.size() > 60) break;
        in[i] = 1; rows.push_back(i); grow = true; for (auto &p : cons[i].t) add.insert(p.first);
      }
      S.insert(add.begin(), add.end());
    }
    if (rows.empty()) return b.hi;
    g_lp++;
    struct V { int s; double base; int sign; int col, col2; };
    vector<V> vs; int n = 0; map<int, int> idx;
    vector<pair<int, double>> ubs;
    for (int s : S) {
      const Itv *v = citv(s); V x; x.s = s; x.col2 = -1; x.base = 0; x.sign = 1; x.col = n++;
      bool lo = v && v->lo > -BIG, hi = v && v->hi < BIG;
      if (lo) { x.base = (double)(long)v->lo; if (hi) ubs.push_back({x.col, (double)(long)(v->hi - v->lo)}); }
      else if (hi) { x.base = (double)(long)v->hi; x.sign = -1; }
      else x.col2 = n++;
      idx[s] = vs.size(); vs.push_back(x);
    }
    vector<vector<double>> A; vector<double> bb; 
    auto addrow = [&](const Lin &l, vector<double> &row, double &rhs) {
      row.assign(n, 0); rhs = -(double)(long)l.c;
      for (auto &p : l.t) { V &x = vs[idx[p.first]]; double k = (double)(long)p.second; rhs -= k * x.base; row[x.col] += k * x.sign; if (x.col2 >= 0) row[x.col2] -= k; }
    };
    for (int r : rows) { vector<double> row; double rhs; addrow(cons[r], row, rhs); A.push_back(row); bb.push_back(rhs); }
    for (auto &u : ubs) { vector<double> row(n, 0); row[u.first] = 1; A.push_back(row); bb.push_back(u.second); }
    vector<double> c(n, 0); double base = 0;
    { bool big = iabs(e.c) > BIG; if (big) return b.hi;
      base = (double)(long)e.c; for (auto &p : e.t) { V &x = vs[idx[p.first]]; double k = (double)(long)p.second; base += k * x.base; c[x.col] += k * x.sign; if (x.col2 >= 0) c[x.col2] -= k; } }
    Simplex sx(A, bb, c); double val; int k = sx.solve(val);
    if (k == 2) { if (infeas) *infeas = true; return NEG; }
    if (k != 0) return b.hi;
    double u = val + base; if (std::fabs(u) > 1e15) return b.hi;
    I r = (I)(long)std::floor(u + 1e-6);
    return r < b.hi ? r : b.hi;
  }
  I lpLb(const Lin &e) const { I x = lpUb(neg(e)); return x <= NEG ? POS : (x >= POS ? NEG : -x); }
  Itv tight(const Lin &e) const { Itv b = bounds(e); if (cons.empty() || b.lo == b.hi) return b; I h = lpUb(e); if (h < b.hi && h > NEG) b.hi = h; I l = lpLb(e); if (l > b.lo && l < POS) b.lo = l; return b; }
  bool entLe(const Lin &e0) const {     // entailed e <= 0 ?
    g_queries++;
    Lin e = norm(res(e0)); Itv b = bounds(e);
    if (b.hi <= 0) return true;
    if (b.lo > 0) return false;
    if (e.isConst()) return e.c <= 0;
    for (auto &c : cons) if (c.t == e.t && e.c <= c.c) return true;
    if (cons.empty()) return false;
    return lpUb(e) <= 0;
  }
  // 1 e<=0 always, 0 e>0 always, -1 unknown
  int decLe(const Lin &e0) const {
    Lin e = norm(res(e0)); Itv b = bounds(e);
    if (b.hi <= 0) return 1; if (b.lo > 0) return 0;
    if (entLe(e)) return 1;
    if (entLe(addc(neg(e), 1))) return 0;
    return -1;
  }
  int decEq(const Lin &e0) const {
    Lin e = res(e0);
    if (e.isConst()) return e.c == 0;
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (e.c % g != 0) return 0;
    if (g > 1) { for (auto &p : e.t) p.second /= g; e.c /= g; }
    Itv b = bounds(e); if (b.lo > 0 || b.hi < 0) return 0;
    Lin m = neg(e);
    for (auto &n : neqs) if (n == e || n == m) return 0;
    if (entLe(addc(e, 1)) || entLe(addc(m, 1))) return 0;
    if (e.t.size() > 1 && entLe(e) && entLe(m)) return 1;
    return -1;
  }
  // after assuming a multi-symbol fact: is the connected component still satisfiable?
  bool sat(const Lin &e0) { if (dead) return false; Lin e = res(e0); if (e.t.empty() || cons.empty()) return true; bool inf = false; lpUb(e, &inf); if (inf) dead = true; return !dead; }
  bool assumeLe(const Lin &e) { return addLe(e) && !dead && sat(e); }
  bool assumeEq(const Lin &e) { return addEq(e) && !dead && sat(e); }
  bool assumeNe(const Lin &e) { return addNe(e) && !dead && sat(e); }
  bool feasible() const {
    if (dead) return false;
    // one LP per connected component containing multi-symbol constraints
    std::set<int> done;
    for (auto &c : cons) {
      if (done.count(c.t[0].first)) continue;
      bool inf = false; lpUb(Lin::sym(c.t[0].first), &inf); if (inf) return false;
      std::set<int> S; for (auto &p : c.t) S.insert(p.first);
      bool g = true; while (g) { g = false; for (auto &d : cons) { bool h = false, all = true; for (auto &p : d.t) if (S.count(p.first)) h = true; else all = false; if (h && !all) { for (auto &p : d.t) S.insert(p.first); g = true; } } }
      done.insert(S.begin(), S.end());
    }
    return true;
  }
};
