#include "engine.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstring>
using namespace llvm;

static string cstr(Engine &E, State &s, const Val &v) {
  if (v.k != Val::Ptr || !v.obj) return "?"; const Obj *o = E.getObj(s, v.obj); if (!o) return "?"; Lin off = s.res(v.e); if (!off.isConst()) return "?";
  string r; for (long k = (long)off.c; k < (long)off.c + 400; k++) { auto it = o->cells.find(k); if (it == o->cells.end() || it->second.v.k != Val::Int) break; Lin e = s.res(it->second.v.e); if (!e.isConst() || e.c == 0) break; r += (char)(int)e.c; }
  return r;
}
// constant contents of the C string, or false
static bool constStr(Engine &E, State &s, const Val &v, string &out) {
  out.clear(); if (v.k != Val::Ptr || !v.obj) return false; const Obj *o = E.getObj(s, v.obj); if (!o || !o->live || o->summary) return false; Lin off = s.res(v.e); if (!off.isConst()) return false;
  for (long k = (long)off.c;; k++) {
    auto it = o->cells.find(k);
    if (it == o->cells.end()) { if (o->bgAt(k) == SegZ && s.entLe(Lin(k + 1) - o->size)) { for (auto &x : o->cells) if (x.first < k && x.first + x.second.sz > k) return false; return true; } return false; }
    if (it->second.sz != 1 || it->second.v.k != Val::Int) return false;
    Lin e = s.res(it->second.v.e); if (!e.isConst()) return false; if (e.c == 0) return true; out += (char)(int)e.c;
  }
}
static int widthOf(const CallBase &c, unsigned k) { Type *t = c.getArgOperand(k)->getType(); return t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }
static Lin argU(Engine &E, State &s, const CallBase &c, vector<Val> &a, unsigned k) {
  if (a[k].k != Val::Int) { if (a[k].k == Val::Undef) E.alarm(s, &c, "uninit", "uninitialised argument"); Val f = E.freshVal(s, c.getArgOperand(k)->getType(), false); a[k] = f; }
  return E.canonU(s, a[k].e, widthOf(c, k));
}
static Lin argS(Engine &E, State &s, const CallBase &c, vector<Val> &a, unsigned k) {
  if (a[k].k != Val::Int) { if (a[k].k == Val::Undef) E.alarm(s, &c, "uninit", "uninitialised argument"); Val f = E.freshVal(s, c.getArgOperand(k)->getType(), true); a[k] = f; }
  return E.canonS(s, a[k].e, widthOf(c, k));
}
#define BI(name) E.bi[name] = [](Engine &E, State s, const CallBase &c, vector<Val> &a, Rets &out)
#define RET(v) out.push_back({std::move(s), v})

static Val mkStr(Engine &E, State &s, Obj::K k, const Lin &len, const Lin &size, const CallBase &c, const string &name) {
  int id = E.newObj(s, k, size, &c, name, SegK); Obj &o = s.mo(id); o.hasSlen = true; o.slen = len; return Val::P(id);
}
static void doFree(Engine &E, State &s, const CallBase &c, const Val &p, int tag, const char *what, Rets &out) {
  E.oblig("release", &c);
  if (p.isNull()) { out.push_back({s, Val()}); return; }
  if (p.k == Val::Undef) { E.alarm(s, &c, "bad-free", string(what) + " of an uninitialised pointer"); return; }
  if (p.k != Val::Ptr) { E.alarm(s, &c, "unknown-ptr", string(what) + " of a pointer of unknown provenance"); return; }
  const Obj *o = E.getObj(s, p.obj);
  if (!o || p.obj == 0) { E.alarm(s, &c, "bad-free", string(what) + " of an invalid pointer"); return; }
  if (o->kind != Obj::Heap) { E.alarm(s, &c, "bad-free", string(what) + " of a pointer that was not allocated (" + o->name + ")"); return; }
  if (!o->live) { E.alarm(s, &c, "double-free", string(what) + " of " + o->name + " already released" + (o->freedAt ? " at " + E.locOf(o->freedAt) : "")); return; }
  if (o->tag != tag) { E.alarm(s, &c, "wrong-free", string(what) + ": block belongs to a different allocator (" + o->name + ")"); }
  if (!(s.entLe(p.e) && s.entLe(neg(p.e)))) { E.alarm(s, &c, "bad-free", string(what) + " of a pointer into the middle of " + o->name); if (!s.addEq(p.e)) return; }
  if (!o->summary) { Obj &m = s.mo(p.obj); m.live = false; m.freedAt = &c; m.cells.clear(); m.sl.clear(); m.sm.clear(); }
  out.push_back({s, Val()});
}
static void ctype(Engine &E, const char *name, std::function<bool(int)> f) {
  string nm = name;
  E.bi[name] = [f](Engine &E, State s, const CallBase &c, vector<Val> &a, Rets &out) {
    Lin e = argS(E, s, c, a, 0);
    if (e.isConst()) { out.push_back({s, Val::I_(Lin(f((int)e.c & 0xff) ? 1 : 0))}); return; }
    // runs of characters in / out of the class over [0,127]; everything else is out
    vector<pair<int, int>> in; for (int k = 0; k < 128; k++) if (f(k)) { if (!in.empty() && in.back().second == k - 1) in.back().second = k; else in.push_back({k, k}); }
    vector<pair<int, int>> poss; for (auto &r : in) { State x = s; if (x.addLe(e - Lin(r.second)) && x.addLe(Lin(r.first) - e) && x.feasible()) poss.push_back(r); }
    if (!poss.empty()) { State x = s; if (x.addLe(e - Lin(poss.back().second)) && x.addLe(Lin(poss.front().first) - e)) { for (size_t k = 0; k + 1 < poss.size(); k++) if (poss[k + 1].first - poss[k].second == 2) x.addNe(e - Lin(poss[k].second + 1)); if (!x.dead) out.push_back({x, Val::I_(Lin(1))}); } }
    if (poss.size() == 1 && s.entLe(e - Lin(poss[0].second)) && s.entLe(Lin(poss[0].first) - e)) return;
    if (poss.empty()) out.push_back({s, Val::I_(Lin(0))});
    else if (poss.size() == 1) {
      State x = s; if (x.addLe(e - Lin(poss[0].first - 1))) out.push_back({x, Val::I_(Lin(0))});
      State y = s; if (y.addLe(Lin(poss[0].second + 1) - e)) out.push_back({y, Val::I_(Lin(0))});
    } else out.push_back({s, Val::I_(Lin(0))});
  };
}

void Engine::initBuiltins() {
  Engine &E = *this;
  // ---------------- harness primitives
  BI("v_int") { Lin lo = argS(E, s, c, a, 0), hi = argS(E, s, c, a, 1); if (!lo.isConst() || !hi.isConst()) { int x = s.fresh(NEG, POS); s.addLe(lo - Lin::sym(x)); s.addLe(Lin::sym(x) - hi); RET(Val::I_(s.res(Lin::sym(x)))); return; } RET(Val::I_(s.res(Lin::sym(s.fresh(lo.c, hi.c))))); };
  E.bi["v_long"] = E.bi["v_int"];
  BI("v_choice") { Lin n = argS(E, s, c, a, 0); for (I k = 0; k < n.c; k++) out.push_back({s, Val::I_(Lin(k))}); };
  BI("v_any") { RET(Val::I_(Lin::sym(s.fresh(-((I)1 << 63), ((I)1 << 63) - 1)))); };
  BI("v_assume") { Lin e = argS(E, s, c, a, 0); int d = s.decEq(e); if (d == 1) throw Die(); if (d < 0) { if (!s.addNe(e)) throw Die(); } if (!s.feasible()) throw Die(); RET(Val()); };
  BI("v_assert") {
    string tag = cstr(E, s, a[1]); E.oblig("assert:" + tag, &c);
    if (a[0].k == Val::Undef) { E.alarm(s, &c, "assert", "assertion depends on an uninitialised value: " + tag, tag); throw Die(); }
    Lin e = argS(E, s, c, a, 0); int d = s.decEq(e);
    if (d != 0) { E.alarm(s, &c, "assert", "assertion may fail: " + tag, tag); if (d == 1) throw Die(); if (!s.addNe(e)) throw Die(); }
    RET(Val());
  };
  BI("v_fail") { string tag = cstr(E, s, a[0]); E.alarm(s, &c, "assert", "forbidden point reached: " + tag, tag); throw Die(); };
  BI("v_reach") { string t = cstr(E, s, a[0]); E.reached.insert(t); E.obCount["reach:" + t]++; RET(Val()); };
  BI("v_mark") { string t = cstr(E, s, a[0]); E.marks.insert(t); RET(Val()); };
  BI("v_stop") { throw Die(); };
  BI("v_split") { Lin e = argS(E, s, c, a, 0); if (!e.isConst()) { Itv b = s.tight(e); if (b.hi - b.lo > 300) { E.alarm(s, &c, "harness", "v_split on a wide range"); throw Die(); } E.throwEnum(s, e); } RET(a[0]); };
  BI("v_buf") { Lin n = argU(E, s, c, a, 0); int id = E.newObj(s, Obj::Ext, n, &c, "input buffer", SegK); RET(Val::P(id)); };
  BI("v_ubuf") { Lin n = argU(E, s, c, a, 0); int id = E.newObj(s, Obj::Ext, n, &c, "output buffer", SegU); RET(Val::P(id)); };
  BI("v_cbuf") { Lin n = argU(E, s, c, a, 0); int id = E.newObj(s, Obj::Ext, n, &c, "constant buffer", SegK); s.mo(id).ro = true; RET(Val::P(id)); };
  BI("v_str") { Lin m = argU(E, s, c, a, 0); Lin n; if (m.isConst()) n = Lin::sym(s.fresh(0, m.c)); else { n = Lin::sym(s.fresh(0, POS)); s.addLe(n - m); } RET(mkStr(E, s, Obj::Ext, s.res(n), s.res(addc(n, 1)), c, "input string")); };
  BI("v_alloc") { Lin n = argU(E, s, c, a, 0); Lin t = argS(E, s, c, a, 1); int id = E.newObj(s, Obj::Heap, n, c.getFunction(), "block of " + c.getFunction()->getName().str(), SegU); s.mo(id).tag = (int)t.c; RET(Val::P(id)); };
  BI("v_alloc_named") { Lin n = argU(E, s, c, a, 0); Lin t = argS(E, s, c, a, 1); const Value *site = s.fr.size() >= 2 && s.fr[s.fr.size() - 2]->site ? (const Value *)s.fr[s.fr.size() - 2]->site : (const Value *)&c; int id = E.newObj(s, Obj::Heap, n, site, cstr(E, s, a[2]), SegU); s.mo(id).tag = (int)t.c; RET(Val::P(id)); };
  BI("v_release") { Lin t = argS(E, s, c, a, 1); doFree(E, s, c, a[0], (int)t.c, "release", out); };
  BI("v_live") { long n = 0; for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary) n++; RET(Val::I_(Lin(n))); };
  BI("v_live_tag") { Lin t = argS(E, s, c, a, 0); long n = 0; for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary && m.second->tag == (int)t.c) n++; RET(Val::I_(Lin(n))); };
  BI("v_assert_noleak") {
    string tag = cstr(E, s, a[0]); E.oblig("leak:" + tag, &c);
    for (auto &m : s.mem) if (m.second->kind == Obj::Heap && m.second->live && !m.second->summary) {
      string where; if (auto *i = dyn_cast_or_null<Instruction>(m.second->site)) where = E.locOf(i);
      E.alarm(s, &c, "leak", m.second->name + " allocated at " + where + " is never released: " + tag, tag + "@" + where);
    }
    RET(Val());
  };
  BI("v_is_live") { if (a[0].k != Val::Ptr || !a[0].obj) { RET(Val::I_(Lin(0))); return; } const Obj *o = E.getObj(s, a[0].obj); RET(Val::I_(Lin(o && o->live ? 1 : 0))); };
  BI("v_objsize") { const Obj *o = a[0].k == Val::Ptr && a[0].obj ? E.getObj(s, a[0].obj) : nullptr; RET(Val::I_(o ? s.res(o->size) : Lin(0))); };
  BI("v_objoff") { RET(Val::I_(a[0].k == Val::Ptr ? s.res(a[0].e) : Lin(0))); };
  BI("v_equal") { Lin n = argU(E, s, c, a, 2); RET(Val::I_(Lin(E.provEq(s, a[0], a[1], n) ? 1 : 0))); };
  BI("v_same_obj") { RET(Val::I_(Lin(a[0].k == Val::Ptr && a[1].k == Val::Ptr && a[0].obj == a[1].obj && a[0].obj ? 1 : 0))); };
  BI("v_is_init") { // are all n bytes initialised?
    Lin n = argU(E, s, c, a, 1); if (!E.access(s, a[0], n, false, &c, "initialisation check")) { RET(Val::I_(Lin(1))); return; }
    const Obj *o = E.getObj(s, a[0].obj); bool ok = true; Lin off = s.res(a[0].e);
    if (!o->summary && off.isConst()) { Itv b = s.bounds(n); long hi = b.hi < 100000 ? (long)b.hi : 100000;
      for (size_t k = 0; k < o->bg.size(); k++) if (o->bg[k].k == SegU) { long x = std::max(o->bg[k].s, (long)off.c), y = k + 1 < o->bg.size() ? std::min(o->bg[k + 1].s, (long)off.c + hi) : (long)off.c + hi; while (x < y) { auto it = o->cells.upper_bound(x); bool cov = false; if (it != o->cells.begin()) { --it; if (it->first + it->second.sz > x && it->second.v.k != Val::Undef) { cov = true; x = it->first + it->second.sz; } } if (!cov) { ok = false; break; } } } }
    RET(Val::I_(Lin(ok))); };
  BI("v_exact_loop") { Lin n = argS(E, s, c, a, 0); s.F().exactLoop = (int)n.c; RET(Val()); };
  BI("v_havoc") { Lin n = argU(E, s, c, a, 1); if (E.access(s, a[0], n, true, &c, "write")) E.invalidate(s, a[0].obj, s.res(a[0].e), s.res(a[0].e) + n, SegK); RET(Val()); };
  BI("v_readable") { Lin n = argU(E, s, c, a, 1); E.access(s, a[0], n, false, &c, "read"); RET(Val()); };
  BI("v_writable") { Lin n = argU(E, s, c, a, 1); E.access(s, a[0], n, true, &c, "write"); RET(Val()); };
  BI("v_dump") { string t = cstr(E, s, a[0]); fprintf(stderr, "DUMP %s:", t.c_str()); for (size_t k = 1; k < a.size(); k++) { if (a[k].k == Val::Int || a[k].k == Val::Ptr) { Itv b = s.bounds(a[k].e); fprintf(stderr, " %s%s in [%s,%s]", a[k].k == Val::Ptr ? ("obj" + std::to_string(a[k].obj) + "+").c_str() : "", s.res(a[k].e).str().c_str(), istr(b.lo).c_str(), istr(b.hi).c_str()); } else fprintf(stderr, " kind%d", a[k].k); } fprintf(stderr, "\n"); RET(Val()); };
  BI("v_dumpstate") { E.compact(s); fprintf(stderr, "STATE\n"); for (auto &x : s.cons) fprintf(stderr, "  %s <= 0\n", x.str().c_str()); for (auto &x : s.neqs) fprintf(stderr, "  %s != 0\n", x.str().c_str()); for (auto &x : s.syms) fprintf(stderr, "  s%d in [%s,%s]\n", x.first, istr(x.second.lo).c_str(), istr(x.second.hi).c_str()); fprintf(stderr, "%s\n", E.canon(s, 0).c_str()); RET(Val()); };
  // ---------------- allocation
  BI("malloc") { Lin n = argU(E, s, c, a, 0); { State x = s; out.push_back({x, Val::null()}); } int id = E.newObj(s, Obj::Heap, n, &c, "malloc block", SegU); RET(Val::P(id)); };
  BI("calloc") { Lin n = argU(E, s, c, a, 0), m = argU(E, s, c, a, 1); Lin sz; if (n.isConst()) sz = scale(m, n.c); else if (m.isConst()) sz = scale(n, m.c); else sz = Lin::sym(s.fresh(0, POS)); { State x = s; out.push_back({x, Val::null()}); } int id = E.newObj(s, Obj::Heap, sz, &c, "calloc block", SegZ); RET(Val::P(id)); };
  BI("realloc") {
    Lin n = argU(E, s, c, a, 1); Val p = a[0]; { State x = s; out.push_back({x, Val::null()}); }
    int id = E.newObj(s, Obj::Heap, n, &c, "realloc block", SegK);
    if (!p.isNull()) { Rets r; const Obj *o = p.k == Val::Ptr ? E.getObj(s, p.obj) : nullptr; bool hs = false; Lin sl; if (o && o->live) { hs = o->hasSlen; sl = o->slen; } doFree(E, s, c, p, 0, "realloc", r); if (r.empty()) return; s = r[0].first; if (hs && s.entLe(addc(s.res(sl), 1) - n)) { Obj &m = s.mo(id); m.hasSlen = true; m.slen = s.res(sl); } }
    RET(Val::P(id));
  };
  BI("free") { doFree(E, s, c, a[0], 0, "free", out); };
  // ---------------- memory / string
  BI("memcpy") { Lin n = argU(E, s, c, a, 2); E.doMemcpy(s, a[0], a[1], n, &c); RET(a[0]); };
  E.bi["memmove"] = E.bi["memcpy"];
  BI("memset") { Lin n = argU(E, s, c, a, 2); E.doMemset(s, a[0], a[1], n, &c); RET(a[0]); };
  BI("memcmp") {
    Lin n = argU(E, s, c, a, 2); bool x = E.access(s, a[0], n, false, &c, "compare"), y = E.access(s, a[1], n, false, &c, "compare");
    if (!x || !y) { RET(Val::I_(Lin(0))); return; }
    Lin o1 = s.res(a[0].e), o2 = s.res(a[1].e);
    if (a[0].obj == a[1].obj && o1 == o2) { RET(Val::I_(Lin(0))); return; }
    if (n.isConst() && o1.isConst() && o2.isConst() && n.c <= 64) {
      Type *t8 = Type::getInt8Ty(c.getContext()); bool allEq = true; 
      for (long k = 0; k < (long)n.c; k++) {
        Val p = E.loadCell(s, a[0].obj, (long)o1.c + k, 1, t8, false, nullptr), q = E.loadCell(s, a[1].obj, (long)o2.c + k, 1, t8, false, nullptr);
        if (p.k == Val::Undef || q.k == Val::Undef) { E.alarm(s, &c, "uninit", "comparison of uninitialised bytes"); allEq = false; continue; }
        if (p.k != Val::Int || q.k != Val::Int) { allEq = false; continue; }
        Lin u = E.canonU(s, p.e, 8), v = E.canonU(s, q.e, 8); Lin d = u - v; int z = s.decEq(d);
        if (z == 1) continue; if (z == 0) { State r1 = s; out.push_back({r1, Val::I_(Lin(-1))}); RET(Val::I_(Lin(1))); return; }
        throw Split{true, d, make_shared<State>(s)};
      }
      if (allEq) { RET(Val::I_(Lin(0))); return; }
    }
    if (E.provEq(s, a[0], a[1], n)) { RET(Val::I_(Lin(0))); return; }
    State p = s, q = s; out.push_back({p, Val::I_(Lin(-1))}); out.push_back({q, Val::I_(Lin(1))}); E.provAdd(s, a[0].obj, o1, a[1].obj, o2, n, true); RET(Val::I_(Lin(0)));
  };
  E.bi["bcmp"] = E.bi["memcmp"];
  BI("strlen") { RET(Val::I_(E.strLenOf(s, a[0], &c))); };
  BI("strnlen") { Lin n = argU(E, s, c, a, 1); const Obj *o = a[0].k == Val::Ptr && a[0].obj ? E.getObj(s, a[0].obj) : nullptr; if (!o) { E.access(s, a[0], Lin(1), false, &c, "string read"); } Lin r = Lin::sym(s.fresh(0, POS)); s.addLe(r - n); if (o->hasSlen) s.addLe(r - (s.res(o->slen) - s.res(a[0].e))); else E.access(s, a[0], n, false, &c, "string read"); RET(Val::I_(s.res(r))); };
  BI("strdup") { Lin n = E.strLenOf(s, a[0], &c); string cs; bool k = constStr(E, s, a[0], cs); { State x = s; out.push_back({x, Val::null()}); } Val v = mkStr(E, s, Obj::Heap, n, addc(n, 1), c, "strdup block"); E.provAdd(s, v.obj, Lin(0), a[0].obj, s.res(a[0].e), addc(n, 1), false); if (k) { Obj &o = s.mo(v.obj); for (size_t i = 0; i <= cs.size(); i++) o.cells[i] = {1, Val::I_(Lin(i < cs.size() ? (I)(signed char)cs[i] : (I)0))}; } RET(v); };
  BI("strndup") { Lin n = argU(E, s, c, a, 1); Lin r = Lin::sym(s.fresh(0, POS)); const Obj *o = E.getObj(s, a[0].obj); E.access(s, a[0], Lin(1), false, &c, "string read"); s.addLe(r - n); if (o && o->hasSlen) { Lin m = s.res(o->slen) - s.res(a[0].e); s.addLe(r - m); } else E.access(s, a[0], n, false, &c, "string read"); r = s.res(r); { State x = s; out.push_back({x, Val::null()}); } RET(mkStr(E, s, Obj::Heap, r, addc(r, 1), c, "strndup block")); };
  auto cmpf = [](bool nocase, bool n) { return [nocase, n](Engine &E, State s, const CallBase &c, vector<Val> &a, Rets &out) {
    string x, y; bool cx = constStr(E, s, a[0], x), cy = constStr(E, s, a[1], y); Lin lim; if (n) lim = argU(E, s, c, a, 2);
    if (n && lim.isConst() && lim.c == 0) { out.push_back({s, Val::I_(Lin(0))}); return; }
    Lin lx, ly;
    if (!n) { lx = E.strLenOf(s, a[0], &c); ly = E.strLenOf(s, a[1], &c); } else { E.access(s, a[0], Lin(1), false, &c, "string read"); E.access(s, a[1], Lin(1), false, &c, "string read");
      for (int k = 0; k < 2; k++) { const Obj *o = E.getObj(s, a[k].obj); string &other = k == 0 ? y : x; bool co = k == 0 ? cy : cx; if (!o->hasSlen && !(k == 0 ? cx : cy)) { Lin need = lim; if (co && lim.isConst() && (I)other.size() + 1 < lim.c) need = Lin((I)other.size() + 1); E.access(s, a[k], need, false, &c, "string read"); } } }
    if (cx && cy && (!n || lim.isConst())) { int r = n ? (nocase ? strncasecmp(x.c_str(), y.c_str(), (size_t)lim.c) : strncmp(x.c_str(), y.c_str(), (size_t)lim.c)) : (nocase ? strcasecmp(x.c_str(), y.c_str()) : strcmp(x.c_str(), y.c_str())); out.push_back({s, Val::I_(Lin(r < 0 ? -1 : r > 0 ? 1 : 0))}); return; }
    if (a[0].obj == a[1].obj && s.res(a[0].e) == s.res(a[1].e)) { out.push_back({s, Val::I_(Lin(0))}); return; }
    if (!n && E.provEq(s, a[0], a[1], addc(lx, 1))) { out.push_back({s, Val::I_(Lin(0))}); return; }
    State p = s, q = s; out.push_back({p, Val::I_(Lin(-1))}); out.push_back({q, Val::I_(Lin(1))});
    // equal: lengths agree
    if (!n) { if (s.addEq(lx - ly) && !s.dead) { if (!nocase) E.provAdd(s, a[0].obj, s.res(a[0].e), a[1].obj, s.res(a[1].e), addc(s.res(lx), 1), true); out.push_back({s, Val::I_(Lin(0))}); } }
    else {
      for (int k = 0; k < 2; k++) { string &other = k == 0 ? y : x; bool co = k == 0 ? cy : cx; const Obj *o = E.getObj(s, a[k].obj); if (co && o->hasSlen && lim.isConst()) { I m = std::min((I)other.size(), lim.c); s.addLe(Lin(m) + s.res(a[k].e) - s.res(o->slen)); } }
      if (!s.dead) out.push_back({s, Val::I_(Lin(0))}); }
  }; };
  E.bi["strcmp"] = cmpf(false, false); E.bi["strcasecmp"] = cmpf(true, false); E.bi["strncmp"] = cmpf(false, true); E.bi["strncasecmp"] = cmpf(true, true);
  BI("strcpy") { Lin n = E.strLenOf(s, a[1], &c); E.doMemcpy(s, a[0], a[1], addc(n, 1), &c); Obj &o = s.mo(a[0].obj); if (s.res(a[0].e) == Lin(0)) { o.hasSlen = true; o.slen = n; } RET(a[0]); };
  BI("strncpy") { Lin n = argU(E, s, c, a, 2); const Obj *so = a[1].k == Val::Ptr && a[1].obj ? E.getObj(s, a[1].obj) : nullptr; if (!so) E.access(s, a[1], Lin(1), false, &c, "string read"); bool hs = so->hasSlen; Lin sl; if (hs) sl = s.res(so->slen) - s.res(a[1].e); string cs; if (!hs && constStr(E, s, a[1], cs)) { hs = true; sl = Lin((I)cs.size()); } if (!hs) E.access(s, a[1], n, false, &c, "string read");
    if (E.access(s, a[0], n, true, &c, "strncpy destination")) { int d = hs ? s.decLe(addc(sl, 1) - n) : 0; if (d < 0) throw Split{false, addc(sl, 1) - n, make_shared<State>(s)}; if (d == 1 && sl.isConst() && n.isConst()) { E.copyRange(s, a[0].obj, s.res(a[0].e), a[1].obj, s.res(a[1].e), addc(sl, 1)); Val t = a[0]; t.e = s.res(a[0].e) + addc(sl, 1); E.doMemset(s, t, Val::I_(Lin(0)), n - addc(sl, 1), &c); } else E.invalidate(s, a[0].obj, s.res(a[0].e), s.res(a[0].e) + n, SegK);
      if (d == 1 && s.res(a[0].e) == Lin(0)) { Obj &o = s.mo(a[0].obj); o.hasSlen = true; o.slen = sl; } else if (d == 0) { Obj &o = s.mo(a[0].obj); if (o.bgRange(0, 1) == SegK || true) { /* terminator only if one follows */ } } }
    RET(a[0]); };
  BI("strcat") { Lin n = E.strLenOf(s, a[1], &c), m = E.strLenOf(s, a[0], &c); Val d = a[0]; d.e = s.res(d.e) + m; if (E.access(s, d, addc(n, 1), true, &c, "strcat destination")) { E.invalidate(s, d.obj, s.res(d.e), s.res(d.e) + addc(n, 1), SegK); Obj &o = s.mo(d.obj); o.hasSlen = true; o.slen = s.res(a[0].e) + m + n; } RET(a[0]); };
  BI("strchr") { Lin n = E.strLenOf(s, a[0], &c), ch = argS(E, s, c, a, 1); string cs;
    if (ch.isConst() && constStr(E, s, a[0], cs)) { auto p = cs.find((char)(int)ch.c); if (ch.c == 0) p = cs.size(); if (p == string::npos) { RET(Val::null()); return; } Val v = a[0]; v.e = s.res(a[0].e) + Lin((I)p); RET(v); return; }
    if (constStr(E, s, a[0], cs)) { std::set<int> in; for (char z : cs) in.insert((signed char)z); in.insert(0); State x = s; for (int z : in) x.addNe(ch - Lin(z)); if (!x.dead) out.push_back({x, Val::null()}); if (in.size() > 4) { State y = s; Val v = a[0]; if (y.addLe(ch - Lin(*in.rbegin())) && y.addLe(Lin(*in.begin()) - ch) && !y.dead) { v.e = y.res(a[0].e) + Lin::sym(y.fresh(0, (I)cs.size())); out.push_back({y, v}); } return; } for (int z : in) { State y = s; if (!y.addEq(ch - Lin(z)) || y.dead) continue; auto p = z ? cs.find((char)z) : cs.size(); Val v = a[0]; v.e = y.res(a[0].e) + Lin((I)p); out.push_back({y, v}); } return; }
    if (!(ch.isConst() && ch.c == 0)) { State x = s; out.push_back({x, Val::null()}); } Lin k = Lin::sym(s.fresh(0, POS)); if (ch.isConst() && ch.c == 0) { if (!s.addEq(k - n)) return; } else if (!s.addLe(k + Lin(ch.isConst() ? 1 : 0) - n)) return;
    if (ch.isConst() && ch.c != 0 && a[0].obj && !E.constObj.count(a[0].obj) && !E.getObj(s, a[0].obj)->summary) { Lin at = s.res(a[0].e) + s.res(k); if (!at.isConst()) s.mo(a[0].obj).sl.push_back({at, 1, Val::I_(ch)}); } Val v = a[0]; v.e = s.res(a[0].e) + s.res(k); RET(v); };
  BI("strrchr") { Lin n = E.strLenOf(s, a[0], &c); { State x = s; out.push_back({x, Val::null()}); } Lin k = Lin::sym(s.fresh(0, POS)); if (!s.addLe(k - n)) return; Val v = a[0]; v.e = s.res(a[0].e) + s.res(k); RET(v); };
  BI("strstr") { Lin n = E.strLenOf(s, a[0], &c), m = E.strLenOf(s, a[1], &c); { State x = s; out.push_back({x, Val::null()}); } Lin k = Lin::sym(s.fresh(0, POS)); if (!s.addLe(k + m - n)) return; Val v = a[0]; v.e = s.res(a[0].e) + s.res(k); string nd; if (constStr(E, s, a[1], nd) && nd.size() <= 4 && a[0].obj && !E.constObj.count(a[0].obj) && !E.getObj(s, a[0].obj)->summary) for (size_t z = 0; z < nd.size(); z++) { Lin at = s.res(v.e) + Lin((I)z); if (!at.isConst()) s.mo(a[0].obj).sl.push_back({at, 1, Val::I_(Lin((I)(signed char)nd[z]))}); } RET(v); };
  BI("memchr") { Lin n = argU(E, s, c, a, 2); E.access(s, a[0], n, false, &c, "memchr"); { State x = s; out.push_back({x, Val::null()}); } Lin k = Lin::sym(s.fresh(0, POS)); if (!s.addLe(addc(k, 1) - n)) return; Val v = a[0]; v.e = s.res(a[0].e) + s.res(k); RET(v); };
  BI("snprintf") {
    Lin n = argU(E, s, c, a, 1); string fmt = cstr(E, s, a[2]);
    // check string arguments
    size_t ai = 3; I fixed = 0; bool pct = false; Lin total(0); bool known = true;
    for (size_t k = 0; k < fmt.size(); k++) {
      if (!pct) { if (fmt[k] == '%') pct = true; else total.c += 1; continue; }
      char ch = fmt[k];
      if (ch == '%') { total.c += 1; pct = false; continue; }
      if (strchr("0123456789.-+ lhz", ch)) continue;
      if (ch == 's' && ai < a.size()) { Lin l = E.strLenOf(s, a[ai], &c); total = total + l; ai++; pct = false; continue; }
      known = false; ai++; pct = false; fixed++;
    }
    Lin r; if (known) r = total; else { r = Lin::sym(s.fresh(0, POS)); s.addLe(total - r); s.addLe(r - total - Lin(24 * fixed)); r = s.res(r); }
    int z = s.decEq(n); if (z < 0) throw Split{true, n, make_shared<State>(s)};
    vector<pair<State, int>> alt;
    if (z != 0) alt.push_back({s, -1});
    else {
      int fits = s.decLe(addc(r, 1) - n);
      if (fits >= 0) alt.push_back({s, fits});
      else { State x = s; if (x.assumeLe(addc(r, 1) - n) && !x.dead) alt.push_back({x, 1}); State y = s; if (y.assumeLe(n - r) && !y.dead) alt.push_back({y, 0}); }
    }
    for (auto &al : alt) {
      State &q = al.first; int fits = al.second;
      if (fits >= 0) {
        Lin rr = q.res(r), nn = q.res(n), w = fits == 1 ? addc(rr, 1) : nn; E.access(q, a[0], nn, true, &c, "snprintf destination");
        E.invalidate(q, a[0].obj, q.res(a[0].e), q.res(a[0].e) + w, SegK);
        Obj &o = q.mo(a[0].obj); if (q.res(a[0].e) == Lin(0)) { o.hasSlen = true; o.slen = addc(w, -1); }
      }
      out.push_back({q, Val::I_(q.res(r))});
    }
  };
  BI("sprintf") { Val d = a[0]; string fmt = cstr(E, s, a[1]); Lin total(0); size_t ai = 2; bool pct = false; int fixed = 0; for (size_t k = 0; k < fmt.size(); k++) { if (!pct) { if (fmt[k] == '%') pct = true; else total.c += 1; continue; } char ch = fmt[k]; if (ch == '%') { total.c++; pct = false; continue; } if (strchr("0123456789.-+ lhz", ch)) continue; if (ch == 's' && ai < a.size()) { total = total + E.strLenOf(s, a[ai], &c); } else fixed++; ai++; pct = false; }
    Lin r = total; if (fixed) { r = Lin::sym(s.fresh(0, POS)); s.addLe(total - r); s.addLe(r - total - Lin(24 * fixed)); r = s.res(r); } if (E.access(s, d, addc(r, 1), true, &c, "sprintf destination")) { E.invalidate(s, d.obj, s.res(d.e), s.res(d.e) + addc(r, 1), SegK); Obj &o = s.mo(d.obj); if (s.res(d.e) == Lin(0)) { o.hasSlen = true; o.slen = r; } } RET(Val::I_(r)); };
  BI("sscanf") { E.strLenOf(s, a[0], &c); for (size_t k = 2; k < a.size(); k++) { if (a[k].k == Val::Ptr && a[k].obj) { E.access(s, a[k], Lin(4), true, &c, "sscanf destination"); } } int nf = (int)a.size() - 2; for (int m = -1; m <= nf; m++) { State x = s; for (int k = 0; k < m; k++) E.storeCell(x, a[2 + k].obj, (long)x.res(a[2 + k].e).c, 4, Val::I_(Lin::sym(x.fresh(-((I)1 << 31), ((I)1 << 31) - 1)))); out.push_back({x, Val::I_(Lin(m))}); } };
  E.bi["__isoc99_sscanf"] = E.bi["sscanf"]; E.bi["__isoc23_sscanf"] = E.bi["sscanf"];
  BI("strtol") { E.strLenOf(s, a[0], &c); if (a[1].k == Val::Ptr && a[1].obj) { Lin n = E.strLenOf(s, a[0], &c); Lin k = Lin::sym(s.fresh(0, POS)); s.addLe(k - n); Val e = a[0]; e.e = s.res(a[0].e) + s.res(k); E.store(s, a[1], e, PointerType::get(c.getContext(), 0), &c); } RET(Val::I_(Lin::sym(s.fresh(-((I)1 << 63), ((I)1 << 63) - 1)))); };
  E.bi["__isoc23_strtol"] = E.bi["strtol"]; 
  BI("strtoul") { E.strLenOf(s, a[0], &c); if (a[1].k == Val::Ptr && a[1].obj) { Lin n = E.strLenOf(s, a[0], &c); Lin k = Lin::sym(s.fresh(0, POS)); s.addLe(k - n); Val e = a[0]; e.e = s.res(a[0].e) + s.res(k); E.store(s, a[1], e, PointerType::get(c.getContext(), 0), &c); } RET(Val::I_(Lin::sym(s.fresh(0, ((I)1 << 64) - 1)))); };
  E.bi["__isoc23_strtoul"] = E.bi["strtoul"];
  BI("atoi") { E.strLenOf(s, a[0], &c); RET(Val::I_(Lin::sym(s.fresh(-((I)1 << 31), ((I)1 << 31) - 1)))); };
  ctype(E, "isalpha", [](int k) { return isalpha(k) != 0; }); ctype(E, "isdigit", [](int k) { return isdigit(k) != 0; }); ctype(E, "isalnum", [](int k) { return isalnum(k) != 0; });
  ctype(E, "isspace", [](int k) { return isspace(k) != 0; }); ctype(E, "isxdigit", [](int k) { return isxdigit(k) != 0; }); ctype(E, "isprint", [](int k) { return isprint(k) != 0; }); ctype(E, "isupper", [](int k) { return isupper(k) != 0; }); ctype(E, "islower", [](int k) { return islower(k) != 0; });
  ctype(E, "iscntrl", [](int k) { return iscntrl(k) != 0; }); ctype(E, "ispunct", [](int k) { return ispunct(k) != 0; }); ctype(E, "isblank", [](int k) { return isblank(k) != 0; }); ctype(E, "isgraph", [](int k) { return isgraph(k) != 0; });
  BI("tolower") { Lin e = argS(E, s, c, a, 0); if (e.isConst()) { RET(Val::I_(Lin((I)tolower((int)e.c)))); return; } int up = s.decLe(e - Lin('Z')), dn = s.decLe(Lin('A') - e); if (dn < 0) throw Split{false, Lin('A') - e}; if (up < 0) throw Split{false, e - Lin('Z')}; RET(Val::I_(up == 1 && dn == 1 ? addc(e, 32) : e)); };
  BI("toupper") { Lin e = argS(E, s, c, a, 0); if (e.isConst()) { RET(Val::I_(Lin((I)toupper((int)e.c)))); return; } int up = s.decLe(e - Lin('z')), dn = s.decLe(Lin('a') - e); if (dn < 0) throw Split{false, Lin('a') - e}; if (up < 0) throw Split{false, e - Lin('z')}; RET(Val::I_(up == 1 && dn == 1 ? addc(e, -32) : e)); };
  BI("v_bswap16") { Lin e = argU(E, s, c, a, 0); auto q = E.divmod(s, e, 256); RET(Val::I_(scale(q.second, 256) + q.first)); };
  E.bi["htons"] = E.bi["v_bswap16"]; E.bi["ntohs"] = E.bi["v_bswap16"];
  BI("v_bswap32") { Lin e = argU(E, s, c, a, 0); if (e.isConst()) { RET(Val::I_(Lin((I)__builtin_bswap32((uint32_t)e.c)))); return; } RET(Val::I_(Lin::sym(s.fresh(0, ((I)1 << 32) - 1)))); };
  E.bi["htonl"] = E.bi["v_bswap32"]; E.bi["ntohl"] = E.bi["v_bswap32"];
  BI("rand") { RET(Val::I_(Lin::sym(s.fresh(0, ((I)1 << 31) - 1)))); }; E.bi["random"] = E.bi["rand"];
  BI("srand") { RET(Val()); }; E.bi["srandom"] = E.bi["srand"];
  BI("abort") { throw Die(); }; 
  BI("exit") { throw Die(); }; 
  BI("abs") { Lin e = argS(E, s, c, a, 0); int d = s.decLe(e); if (d < 0) throw Split{false, e}; RET(Val::I_(d == 1 ? neg(e) : e)); };
}

// ------------------------------------------------------------------ driver
void Engine::run() {
  State s;
  vector<pair<GlobalVariable *, int>> gs;
  for (auto &g : M.globals()) { int id = ++g_nextObj; gobj[&g] = id; gs.push_back({&g, id}); }
  for (auto &p : gs) {
    GlobalVariable *g = p.first; auto o = make_shared<Obj>(); o->id = p.second; o->kind = Obj::Global; o->name = g->getName().str(); o->site = g;
    o->size = Lin((I)(g->getValueType()->isSized() ? DL.getTypeAllocSize(g->getValueType()).getFixedValue() : 0)); o->ghost = g->getName().starts_with("vg_");
    if (g->hasInitializer()) initGlobal(*o, g->getInitializer(), 0); else o->bg = {{0, SegK}};
    if (g->isConstant()) { o->ro = true;
      if (auto *cd = g->hasInitializer() ? dyn_cast<ConstantDataArray>(g->getInitializer()) : nullptr) if (cd->isCString()) { o->hasSlen = true; o->slen = Lin((I)cd->getAsCString().size()); }
      constObj[p.second] = o; }
    else s.mem[p.second] = o;
  }
  Function *F = M.getFunction(cfg.entry); if (!F || F->isDeclaration()) { fprintf(stderr, "entry %s not found\n", cfg.entry.c_str()); exit(3); }
  vector<Val> args; Rets r = callFn(std::move(s), F, args, nullptr);
  obCount["completed-paths"] = r.size();
}
static string esc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
string Engine::json() {
  string o = "{\n";
  auto list = [&](const set<string> &s) { string r = "["; bool f = true; for (auto &x : s) { if (!f) r += ", "; f = false; r += "\"" + esc(x) + "\""; } return r + "]"; };
  o += "\"entry\": \"" + cfg.entry + "\",\n\"budget_exhausted\": " + (outOfBudget ? "true" : "false") + ",\n\"budget_why\": \"" + esc(budgetWhy) + "\",\n";
  o += "\"wall_s\": " + std::to_string(elapsed()) + ",\n\"steps\": " + std::to_string(steps) + ",\n\"states\": " + std::to_string(states) + ",\n\"joins\": " + std::to_string(joins) + ",\n\"widenings\": " + std::to_string(widenings) + ",\n\"loops\": " + std::to_string(loops) + ",\n\"lp\": " + std::to_string(g_lp) + ",\n\"queries\": " + std::to_string(g_queries) + ",\n";
  o += "\"completed\": " + std::to_string(obCount["completed-paths"]) + ",\n";
  o += "\"functions\": " + list(analysed) + ",\n\"callsites\": " + std::to_string(callsites.size()) + ",\n\"reached\": " + list(reached) + ",\n\"marks\": " + list(marks) + ",\n\"havoced\": " + list(havoced) + ",\n";
  { set<string> all; set<const Function *> seen; vector<const Function *> wl; if (auto *e = M.getFunction(cfg.entry)) wl.push_back(e);
    while (!wl.empty()) { auto *F = wl.back(); wl.pop_back(); if (!seen.insert(F).second) continue;
      for (auto &B : *F) for (auto &i : B) { for (auto &op : i.operands()) if (auto *g = dyn_cast<Function>(op.get())) wl.push_back(g);
        if (auto *cb = dyn_cast<CallBase>(&i)) if (auto *cf = cb->getCalledFunction()) if (cf->getName() == "v_reach") if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (g->hasInitializer()) if (auto *cd = dyn_cast<ConstantDataArray>(g->getInitializer())) all.insert(cd->getAsCString().str()); } }
    o += "\"reach_all\": " + list(all) + ",\n"; }
  o += "\"loop_fixpoints\": " + list(loopJoined) + ",\n";
  o += "\"obligations\": {"; bool f = true; for (auto &p : obCount) { if (!f) o += ", "; f = false; o += "\"" + esc(p.first) + "\": " + std::to_string(p.second); } o += "},\n";
  o += "\"obligation_sites\": {"; f = true; for (auto &p : obligations) { if (!f) o += ", "; f = false; o += "\"" + esc(p.first) + "\": " + std::to_string(p.second.size()); } o += "},\n";
  o += "\"alarms\": ["; f = true;
  for (auto &p : alarms) { auto &a = p.second; if (!f) o += ","; f = false; o += "\n{\"kind\": \"" + a.kind + "\", \"file\": \"" + esc(a.file) + "\", \"line\": " + std::to_string(a.line) + ", \"function\": \"" + esc(a.fn) + "\", \"tag\": \"" + esc(a.tag) + "\", \"msg\": \"" + esc(a.msg) + "\", \"count\": " + std::to_string(a.count) + ", \"stack\": [";
    bool g = true; for (auto &x : a.stack) { if (!g) o += ", "; g = false; o += "\"" + esc(x) + "\""; } o += "], \"trace\": ["; g = true; for (auto &x : a.trace) { if (!g) o += ", "; g = false; o += "\"" + esc(x) + "\""; } o += "], \"state\": \"" + esc(a.extra) + "\"}"; }
  o += "]\n}\n"; return o;
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic D; string file, outp; Config cfg;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto val = [&]() { return string(argv[++i]); };
    if (a == "-entry") cfg.entry = val(); else if (a == "-o") outp = val(); else if (a == "-unroll") cfg.unroll = atoi(val().c_str()); else if (a == "-time") cfg.timeLimit = atof(val().c_str()); else if (a == "-group") cfg.groupCap = atoi(val().c_str()); else if (a == "-cap") cfg.totalCap = atoi(val().c_str()); else if (a == "-only") cfg.only.push_back(std::regex(val())); else if (a == "-kind") cfg.kinds.insert(val()); else if (a == "-v") cfg.verbose = true; else file = a; }
  auto M = parseIRFile(file, D, C); if (!M) { D.print("absint", errs()); return 3; }
  Engine E(*M); E.cfg = cfg; E.initBuiltins(); E.run();
  if (cfg.verbose) { vector<pair<long, const BasicBlock *>> h; for (auto &p : E.hot) h.push_back({p.second, p.first}); std::sort(h.rbegin(), h.rend());
    for (size_t i = 0; i < h.size() && i < 2500; i++) { auto *B = h[i].second; unsigned ln = 0; for (auto &x : *B) if (x.getDebugLoc()) { ln = x.getDebugLoc().getLine(); break; } fprintf(stderr, "HOT %ld %s:%u\n", h[i].first, B->getParent()->getName().str().c_str(), ln); } }
  string j = E.json(); if (outp.empty()) fputs(j.c_str(), stdout); else { FILE *f = fopen(outp.c_str(), "w"); if (!f) return 3; fputs(j.c_str(), f); fclose(f); }
  return E.outOfBudget ? 4 : 0;
}
