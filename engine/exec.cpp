#include "exec.h"
#include <cmath>
using namespace llvm;
Engine* E; Opts g_opt; int g_pass = 0; bool g_reduce = true, g_restart = false;
static PC g_rootpc{N_T, nullptr, 0, N_T};

State* Engine::clone(State* s) { nforks++; return new State(*s); }
void Engine::addc(State* s, Node* c) {
  if (c == N_T) return;
  s->pc = new PC{c, s->pc, s->pc->depth + 1, mkAnd(s->pc->full, c)};
  Node* k = c; u64 v = 1; if (c->op == O_NOT) { k = c->a; v = 0; }
  s->facts.push_back({k, v});
  if (c->op == O_EQ && isC(c->b)) s->facts.push_back({c->a, c->b->k});
  if (c->op == O_AND) for (Node* x : {c->a, c->b}) { Node* y = x; u64 vv = 1; if (x->op == O_NOT) { y = x->a; vv = 0; } s->facts.push_back({y, vv}); }
  if (s->facts.size() > 48) s->facts.erase(s->facts.begin(), s->facts.begin() + 16);
}
static bool factOf(State* s, Node* n, u64& v) {
  for (size_t i = s->facts.size(); i-- > 0;) if (s->facts[i].n == n) { v = s->facts[i].v; return true; }
  return false;
}
struct QK { Node* a; Node* b; bool operator==(const QK& o) const { return a == o.a && b == o.b; } };
struct QH { size_t operator()(const QK& q) const { return (size_t)q.a * 31 + (size_t)q.b * 1000003; } };
static std::unordered_map<QK, std::pair<bool, ModelP>, QH> qcache;
void Engine::qclear() { qcache.clear(); }
bool Engine::check(State* s, Node* c, ModelP* m) {
  if (c == N_F) return false;
  if (c == N_T) { if (m) *m = s->hint; return true; }
  if (conc) { bool r = s->hint->eval(c); if (r && m) *m = s->hint; return r; }
  if (s->hint->eval(c)) { g_solver.hinted++; if (m) *m = s->hint; return true; }
  if (mkAnd(s->pc->full, c) == N_F) return false;
  QK k{s->pc->full, c}; auto it = qcache.find(k);
  if (it != qcache.end()) { if (it->second.first && m) *m = it->second.second; return it->second.first; }
  ModelP mm; bool r = g_solver.check({s->pc->full, c}, &mm);
  if (qcache.size() > 200000) qcache.clear();
  qcache[k] = {r, mm}; if (r && m) *m = mm; return r;
}
int Engine::decide(State* s, Node* c, ModelP* other) {
  if (isC(c)) return c->k ? 1 : 0;
  Node* k = c; bool neg = false; if (c->op == O_NOT) { k = c->a; neg = true; }
  u64 v; if (factOf(s, k, v)) return (v != 0) != neg;
  bool h = s->hint->eval(c);
  if (conc) return h;
  Node* opp = h ? mkNot(c) : c;
  if (!check(s, opp, other)) { s->facts.push_back({k, (u64)(h != neg)}); return h; }
  return h ? 2 : 3;
}
void Engine::report(State* s, const std::string& label, const std::string& where, ModelP m, const std::string& detail) {
  std::string k = label;
  violCount[k]++;
  if (conc) { if (concViol.empty()) concViol = label; stopConc = true; }
  if (viols.count(k)) return;
  Viol v; v.label = label; v.where = where; v.m = m; v.level = level; v.detail = detail; viols[k] = v;
}
V Engine::fresh(State* s, int t, const char* k, u8 w) {
  char b[64]; snprintf(b, 64, "%s_%d_%d_%u_%d_p%d", k, level, t, s->ndidx++, w, g_pass);
  Node* n = nodeVar(b, w);
  if (conc) return VC_(conc->eval(n));
  if (w > 1 && w <= 4 && *k == 'n') { Node* r = nodeConst(w, (1u << w) - 1); for (u32 i = (1u << w) - 1; i-- > 0;) r = mkIte(nodeInset(n, 1ull << i), nodeConst(w, i), r); return VN(r); } // small choices: a tree with constant leaves
  return VN(n);
}
const char* Engine::checkAddr(State* s, u64 a, u64 n, bool wr, Slot*& sl, i64& off) {
  u32 r = aregion(a), k = aslot(a); off = aoff(a);
  std::vector<Slot>* v = nullptr;
  if (a < 65536 * 16) return a == 0 ? "null pointer access" : "wild pointer access";
  if (r == R_CONST) { v = &cslots; if (k >= v->size()) return "wild pointer access"; if (wr && !E) return ""; }
  else if (r == R_GLOB) v = &s->glob;
  else if (r >= R_HEAP && r < R_HEAP + s->heap.size()) v = &s->heap[r - R_HEAP];
  else if (r >= R_STACK && r < R_STACK + s->stack.size()) v = &s->stack[r - R_STACK];
  else return "wild pointer access";
  if (k >= v->size()) return r >= R_STACK ? "access to a dead stack object" : "wild pointer access";
  sl = &(*v)[k];
  if (sl->dead) return "use after free";
  if (!sl->o) return "wild pointer access";
  if (off < 0 || (u64)off + n > sl->o->size) return "out-of-bounds access";
  if (wr && r == R_CONST) return "write to constant memory";
  return nullptr;
}
bool Engine::resolve(State* s, int t, V p, u64 n, bool wr, const DInst* d, Tgts& out) {
  u64 fv;
  if (p.n && factOf(s, p.n, fv)) p = VC_(fv);
  if (!p.n) {
    out.one = true; out.f.g = N_T; out.f.a = p.c;
    const char* e = checkAddr(s, p.c, n, wr, out.f.sl, out.f.off);
    if (e) { report(s, std::string("memory: ") + e + " in " + instLoc(d), instLoc(d), s->hint); kill(s); return false; }
    if (out.f.sl->alive) { Node* al = out.f.sl->alive; ModelP m;
      if (check(s, mkNot(al), &m)) { report(s, std::string("memory: use after free in ") + instLoc(d), instLoc(d), m); if (!check(s, al, &m)) { kill(s); return false; } addc(s, al); s->hint = m; }
      out.f.sl->alive = nullptr; }
    return true;
  }
  out.one = false; out.v.clear();
  std::vector<u64> vals;
  if (p.n->cl) vals = *p.n->vs;
  else { // enumerate with the solver
    Node* rest = N_T; ModelP m;
    while (check(s, rest, &m)) { u64 v = m->eval(p.n); vals.push_back(v); if (vals.size() > 64) fatal("symbolic pointer with more than 64 values at " + instLoc(d)); rest = mkAnd(rest, mkNot(mkEq(p.n, nodeConst(64, v)))); if (conc) break; }
  }
  for (u64 v : vals) {
    Tgt g; g.a = v; g.g = mkEq(p.n, nodeConst(64, v)); if (g.g == N_F) continue;
    u64 fv2; Node* kk = g.g; bool neg = false; if (kk->op == O_NOT) { kk = kk->a; neg = true; }
    if (factOf(s, kk, fv2)) { if ((fv2 != 0) == neg) continue; }
    const char* e = checkAddr(s, v, n, wr, g.sl, g.off);
    if (!e && g.sl->alive) { Node* bad = mkAnd(g.g, mkNot(g.sl->alive)); ModelP m; if (check(s, bad, &m)) { report(s, "memory: use after free in " + instLoc(d), instLoc(d), m); Node* ok = mkNot(bad); if (!check(s, ok, &m)) { kill(s); return false; } addc(s, ok); s->hint = m; } }
    if (e) { ModelP m;
      if (check(s, g.g, &m)) { report(s, std::string("memory: ") + e + " in " + instLoc(d), instLoc(d), m); Node* ok = mkNot(g.g); if (!check(s, ok, &m)) { kill(s); return false; } addc(s, ok); s->hint = m; }
      else s->facts.push_back({kk, (u64)neg});
      continue; }
    out.v.push_back(g);
  }
  if (out.v.empty()) { kill(s); return false; }
  if (out.v.size() > 3) { // drop targets that this path excludes
    std::vector<Tgt> w; for (auto& g : out.v) { ModelP m; if (check(s, g.g, &m)) w.push_back(g); } out.v.swap(w);
    if (out.v.empty()) { kill(s); return false; }
  }
  if (out.v.size() == 1) { out.one = true; out.f = out.v[0]; out.f.g = N_T; s->facts.push_back({p.n, out.f.a}); }
  return true;
}
V Engine::readAt(State* s, int t, Slot* sl, i64 off, u32 n) {
  Obj* o = sl->o.p; bool conc_ = true, anysym = false, allun = true;
  for (u32 i = 0; i < n; i++) { u8 x = o->st[off + i]; if (x != 1) conc_ = false; if (x == 2) anysym = true; if (x != 0) allun = false; }
  if (conc_) { u64 v = 0; memcpy(&v, &o->by[off], n); return VC_(v); }
  if (allun) { V v = fresh(s, t, "u", n * 8); writeAt(sl, off, n, v); return v; }
  if (anysym) for (auto& y : o->sy) if (y.off == off && y.n == n) return VN(y.v);
  for (u32 i = 0; i < n; i++) if (o->st[off + i] == 0) { writeAt(sl, off + i, 1, fresh(s, t, "u", 8)); o = sl->o.p; }
  Node* r = nullptr;
  for (u32 i = 0; i < n;) {
    Node* pce; u32 k;
    if (o->st[off + i] == 1) { k = 0; u64 v = 0; while (i + k < n && o->st[off + i + k] == 1) { v |= (u64)o->by[off + i + k] << (8 * k); k++; } pce = nodeConst(k * 8, v); }
    else { const Sym* f = nullptr; for (auto& y : o->sy) if (y.off <= off + i && off + i < (u32)y.off + y.n) { f = &y; break; } if (!f) fatal("sym cell");
      u32 lo = off + i - f->off; k = std::min<u32>(f->n - lo, n - i); pce = mkExtract(f->v, lo * 8, k * 8); }
    r = r ? mkConcat(pce, r) : pce; i += k;
  }
  return VN(r);
}
static void clearRange(Obj* o, u32 off, u32 n) { // split or drop symbolic cells and width marks that overlap
  bool any = false; for (u32 i = 0; i < n; i++) if (o->st[off + i] == 2) { any = true; break; }
  if (any) {
    std::vector<Sym> ns;
    for (auto& y : o->sy) {
      if (y.off >= off + n || y.off + y.n <= (int)off) { ns.push_back(y); continue; }
      for (u32 i = 0; i < y.n; i++) { u32 b = y.off + i; if (b >= off && b < off + n) continue; Node* x = mkExtract(y.v, i * 8, 8); o->wd[b] = 0; if (isC(x)) { o->st[b] = 1; o->by[b] = x->k; } else ns.push_back({(u16)b, 1, x}); }
    }
    o->sy.swap(ns);
  }
  for (u32 i = 0; i < n; i++) o->wd[off + i] = 0;
  for (u32 b = off, k = 1; b > 0 && k < 8; k++) { b--; if (o->wd[b] > k) { o->wd[b] = 0; break; } else if (o->wd[b]) break; }
}
void Engine::writeAt(Slot* sl, i64 off, u32 n, V v) {
  Obj* o = sl->o.wr(); clearRange(o, off, n);
  if (v.n) { for (u32 i = 0; i < n; i++) o->st[off + i] = 2; o->sy.push_back({(u16)off, (u8)n, v.n}); }
  else { memcpy(&o->by[off], &v.c, n); memset(&o->st[off], 1, n); }
  o->wd[off] = n;
}
bool Engine::load(State* s, int t, V p, u8 w, const DInst* d, V& r, bool at, bool norace) {
  u32 n = (w + 7) / 8; Tgts T; if (!resolve(s, t, p, n, false, d, T)) return false;
  Node* acc = nullptr;
  for (size_t i = 0; i < T.n(); i++) {
    Tgt& g = T[i]; if (!norace) access(s, t, g.sl, g.off, n, false, at, d, g.g);
    V v = readAt(s, t, g.sl, g.off, n);
    if (T.one) { r = v; if (v.n && w < n * 8) r = VN(mkExtract(v.n, 0, w)); else if (!v.n) r.c &= maskw(w); return true; }
    Node* x = toN(v, n * 8); acc = acc ? mkIte(g.g, x, acc) : x;
  }
  if (w < n * 8) acc = mkExtract(acc, 0, w);
  r = VN(acc); return true;
}
bool Engine::store(State* s, int t, V p, u8 w, V v, const DInst* d, bool at, bool norace) {
  u32 n = (w + 7) / 8; Tgts T; if (!resolve(s, t, p, n, true, d, T)) return false;
  if (v.n && w < n * 8) v = VN(mkZext(v.n, n * 8));
  for (size_t i = 0; i < T.n(); i++) {
    Tgt& g = T[i]; if (!norace) access(s, t, g.sl, g.off, n, true, at, d, g.g);
    if (T.one) { writeAt(g.sl, g.off, n, v); return true; }
    V old = readAt(s, t, g.sl, g.off, n);
    writeAt(g.sl, g.off, n, VN(mkIte(g.g, toN(v, n * 8), toN(old, n * 8))));
  }
  return true;
}
// ---- happens-before ----
static std::vector<std::vector<u64>> g_ls{{}}; static std::map<std::vector<u64>, u32> g_lsi{{{}, 0}};
u32 lsOf(const std::vector<u64>& v) { auto it = g_lsi.find(v); if (it != g_lsi.end()) return it->second; g_ls.push_back(v); return g_lsi[v] = g_ls.size() - 1; }
u32 lsAdd(u32 a, u64 x) { auto v = g_ls[a]; auto i = std::lower_bound(v.begin(), v.end(), x); if (i != v.end() && *i == x) return a; v.insert(i, x); return lsOf(v); }
u32 lsDel(u32 a, u64 x) { auto v = g_ls[a]; auto i = std::lower_bound(v.begin(), v.end(), x); if (i == v.end() || *i != x) return a; v.erase(i); return lsOf(v); }
u32 lsMeet(u32 a, u32 b) { if (a == b || !a || !b) return a == b ? a : 0; std::vector<u64> r; std::set_intersection(g_ls[a].begin(), g_ls[a].end(), g_ls[b].begin(), g_ls[b].end(), std::back_inserter(r)); return lsOf(r); }
int Engine::syncBit(u64 a) { auto it = syncIdx.find(a); if (it != syncIdx.end()) return it->second; int b = KB_SYNC + syncIdx.size(); if (b >= KB_N) fatal("too many synchronisation objects"); return syncIdx[a] = b; }
// what src knows, dst knows afterwards (join: in addition to what it knew)
void Engine::hbCopy(State* s, int src, int dst, bool join, Node* g) {
  auto slot = [&](Slot& sl) { if (!sl.acc) return; AccInfo* w = nullptr; size_t n = sl.acc->v.size();
    for (size_t i = 0; i < n; i++) { const Acc& r = w ? w->v[i] : sl.acc->v[i]; Node *a = r.get(src), *d = r.get(dst); if (join && (a == N_F || d == N_T) || a == d) continue;
      Node* nv = mkIte(g, join ? mkOr(a, d) : a, d); if (nv == d) continue; if (!w) w = sl.acc.wr(); w->v[i].set(dst, nv); } };
  for (auto& x : s->glob) slot(x); for (auto& h : s->heap) for (auto& x : h) slot(x); for (auto& h : s->stack) for (auto& x : h) slot(x);
}
void Engine::hbAddrs(State* s, V p, std::vector<std::pair<u64, Node*>>& o) {
  if (!p.n) { o.push_back({p.c, N_T}); return; }
  u64 f; if (factOf(s, p.n, f)) { o.push_back({f, N_T}); return; }
  if (!p.n->cl) fatal("synchronisation through an unresolved pointer");
  for (u64 v : *p.n->vs) { Node* g = mkEq(p.n, nodeConst(64, v)); u64 x; Node* k = g; bool neg = false; if (k->op == O_NOT) { k = k->a; neg = true; } if (factOf(s, k, x) && (x != 0) == neg) continue; if (g != N_F) o.push_back({v, g}); }
}
void Engine::hbAcquire(State* s, int t, V p, bool relaxed) {
  if (s->th.size() == 1) return; std::vector<std::pair<u64, Node*>> as; hbAddrs(s, p, as);
  for (auto& x : as) hbCopy(s, syncBit(x.first), relaxed ? KB_ACQ + t : t, true, x.second);
}
void Engine::hbRelease(State* s, int t, V p, bool join, bool relaxed) {
  if (s->th.size() == 1) return; std::vector<std::pair<u64, Node*>> as; hbAddrs(s, p, as);
  for (auto& x : as) hbCopy(s, relaxed ? KB_REL + t : t, syncBit(x.first), join, x.second);
}
void Engine::race(State* s, u32 f1, u32 i1, u32 f2, u32 i2, ModelP m) {
  u64 a = ((u64)f1 << 32) | i1, b = ((u64)f2 << 32) | i2; if (a > b) std::swap(a, b);
  auto& v = races[{a, b}]; if (v.size() < 6 && (v.empty() || v.back().first != m)) v.push_back({m, level});
  for (u64 k : {a, b}) { DInst& d = g_funcs[k >> 32]->ins[(u32)k]; if (!d.marked && !d.atomic) newMarks.insert(k); }
}
void Engine::access(State* s, int t, Slot* sl, i64 off, u32 n, bool wr, bool at, const DInst* d, Node* g) {
  if (g_opt.norace || sl->priv || s->th.size() == 1) return;
  if (sl >= cslots.data() && sl < cslots.data() + cslots.size()) return;
  Frame* fr = s->th[t].st.empty() ? nullptr : s->th[t].st.back().p;
  if (!fr || fr->f->norace || s->ghost) return;
  u32 myls = s->th[t].ls;
  if (!sl->acc) sl->acc = Ref<AccInfo>(new AccInfo);
  AccInfo* ai = sl->acc.p; int same = -1; bool prunable = false; i64 end = off + n;
  for (size_t i = 0; i < ai->v.size(); i++) { Acc& x = ai->v[i];
    if (x.tid == t) { if (x.off == off && x.sz == n && x.wr == wr && x.at == at) same = i; else if (g == N_T && wr && !at && x.off >= off && x.off + x.sz <= end) prunable = true; continue; }
    if (x.off < end && off < (i64)x.off + x.sz) {
      Node* kn = x.get(t); bool hb = kn == N_T || lsMeet(x.ls, myls);
      if ((wr || x.wr) && !(at && x.at) && !hb) {
        Node* q = mkAnd(mkAnd(mkNot(kn), x.pres), g); ModelP m;
        if (check(s, q, &m)) race(s, x.fn, x.ip, fr->f->id, d->idx, m);
        else if (g == N_T) { hb = true; Acc& y = sl->acc.wr()->v[i]; ai = sl->acc.p; y.set(t, N_T); }
      }
      if (hb && g == N_T && wr && !at && x.off >= off && x.off + x.sz <= end) prunable = true;
    } }
  if (same >= 0 && g == N_T && !prunable) { Acc& x = ai->v[same]; u64 z = 0; for (u64 k : x.k) z |= k; if (x.pres == N_T && x.sym.empty() && x.k[0] == 1ull << t && !x.k[1] && !x.k[2] && !x.k[3] && x.ls == myls && x.fn == fr->f->id && x.ip == d->idx) return; }
  ai = sl->acc.wr();
  if (same >= 0) { Acc& x = ai->v[same]; x.fn = fr->f->id; x.ip = d->idx;
    if (g == N_T) { x.ls = myls; x.pres = N_T; x.only(t); }
    else { x.ls = lsMeet(myls, x.ls); x.pres = mkOr(x.pres, g); std::vector<int> bits; for (int w = 0; w < KB_N / 64; w++) for (u64 k = x.k[w]; k; k &= k - 1) bits.push_back(w * 64 + __builtin_ctzll(k)); for (auto& y : x.sym) bits.push_back(y.first);
      for (int b : bits) if (b != t) x.set(b, mkAnd(mkNot(g), x.get(b))); x.set(t, N_T); } }
  else { Acc x{(u16)off, (u16)n, (u8)t, wr, at, fr->f->id, d->idx, myls, g, {}, {}}; x.only(t); ai->v.push_back(x); }
  if (prunable) { std::vector<Acc> w; for (auto& x : ai->v) { bool cov = x.off >= off && x.off + x.sz <= end, me = x.tid == t && x.off == off && x.sz == n && x.wr == wr && x.at == at; if (me || !cov || !(x.tid == t || x.get(t) == N_T || lsMeet(x.ls, myls))) w.push_back(x); } ai->v.swap(w); }
}
// ---- allocation ----
u64 Engine::alloc(State* s, std::vector<Slot>& v, u32 region, u64 size, u8 init) {
  if (size > 60000) fatal("allocation too large: " + std::to_string(size));
  Slot sl; sl.o = Ref<Obj>(new Obj(size, init)); v.push_back(sl); return mkaddr(region, v.size() - 1, 0);
}
bool Engine::freeObj(State* s, int t, u64 a, const DInst* d) {
  if (!a) return true;
  Slot* sl; i64 off; const char* e = checkAddr(s, a, 0, false, sl, off); u32 r = aregion(a);
  if (!e && (off != 0 || r < R_HEAP || r >= R_STACK)) e = "free of a non-heap pointer";
  if (e) { report(s, std::string("memory: ") + (std::string(e) == "use after free" ? "double free" : e) + " in " + instLoc(d), instLoc(d), s->hint); kill(s); return false; }
  if (sl->alive) { ModelP m; if (check(s, mkNot(sl->alive), &m)) { report(s, "memory: double free in " + instLoc(d), instLoc(d), m); Node* al = sl->alive; if (!check(s, al, &m)) { kill(s); return false; } addc(s, al); s->hint = m; } sl->alive = nullptr; }
  access(s, t, sl, 0, sl->o->size, true, false, d);
  sl->dead = true; sl->o = Ref<Obj>(); sl->acc = Ref<AccInfo>();
  return true;
}
u64 Engine::rd(State* s, int t, u64 a, u32 n, bool& ok) {
  Slot* sl; i64 off; const char* e = checkAddr(s, a, n, false, sl, off);
  if (e) { ok = false; return 0; }
  V v = readAt(s, t, sl, off, n); if (v.n) { u64 f; if (factOf(s, v.n, f)) return f; ok = false; return 0; } return v.c;
}
bool Engine::concretize(State* s, Node* p, u64& v) {
  if (isC(p)) { v = p->k; return true; }
  if (factOf(s, p, v)) return true;
  v = s->hint->eval(p);
  if (conc) return true;
  Node* eq = mkEq(p, nodeConst(p->w, v)); ModelP m;
  if (check(s, mkNot(eq), &m)) { State* o = clone(s); addc(o, mkNot(eq)); o->hint = m; work.push_back(o); addc(s, eq); }
  s->facts.push_back({p, v});
  return true;
}
// ---- control ----
void Engine::applyEdge(Frame* fr, const Edge& e) {
  size_t n = e.moves.size();
  if (n == 1) { auto& m = e.moves[0]; fr->r[m.dst] = m.src.reg ? fr->r[m.src.r] : VC_(m.src.c); }
  else if (n) { V tmp[64]; std::vector<V> big; V* T = tmp; if (n > 64) { big.resize(n); T = big.data(); }
    for (size_t i = 0; i < n; i++) T[i] = e.moves[i].src.reg ? fr->r[e.moves[i].src.r] : VC_(e.moves[i].src.c);
    for (size_t i = 0; i < n; i++) fr->r[e.moves[i].dst] = T[i]; }
  fr->ip = e.target;
}
void Engine::finishCall(State* s, int t, Frame* fr, const DInst& d, const V* rv, u32 n) {
  for (u32 i = 0; i < d.ndst; i++) fr->r[d.dst + i] = i < n ? rv[i] : VC_(0);
  if (d.invoke) applyEdge(fr, d.e[0]); else fr->ip++;
}
bool Engine::pushCall(State* s, int t, DFunc* f, const std::vector<V>& args, const DInst* d) {
  if (f->external || f->F->isDeclaration()) { fatal("call of undefined function " + f->name + " from " + (d ? instLoc(d) : "")); }
  decode(f); f->execs++; funcs.insert(f);
  if (s->th[t].st.size() > 300) { report(s, "stack overflow (recursion) in " + f->name, f->name, s->hint); kill(s); return false; }
  Frame* n = new Frame; n->f = f; n->r.assign(f->nregs, VC_(0)); n->salloc = s->stack[t].size();
  size_t np = std::min(args.size(), f->params.size()); for (size_t i = 0; i < np; i++) n->r[f->params[i]] = args[i];
  s->th[t].st.push_back(Ref<Frame>(n));
  return true;
}
bool Engine::upcast(State* s, int t, u64 obj, u64 ti, u64 target, u64& adj, int depth) {
  if (ti == target) { adj = obj; return true; }
  bool ok = true; u64 vt = rd(s, t, ti, 8, ok); if (!ok) return false;
  std::string nm; if (aregion(vt) == R_CONST && aslot(vt) < g_cobjs.size()) nm = g_cobjs[aslot(vt)].name;
  if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") { u64 b = rd(s, t, ti + 16, 8, ok); return upcast(s, t, obj, b, target, adj, depth + 1); }
  if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    u64 n = rd(s, t, ti + 20, 4, ok);
    for (u64 i = 0; i < n; i++) { u64 b = rd(s, t, ti + 24 + 16 * i, 8, ok), of = rd(s, t, ti + 32 + 16 * i, 8, ok); i64 off = (i64)of >> 8;
      if (!(of & 2)) continue;
      u64 o2 = obj;
      if (obj) { if (of & 1) { u64 vp = rd(s, t, obj, 8, ok); if (!ok) return false; i64 vo = (i64)rd(s, t, vp + off, 8, ok); if (!ok) return false; o2 = obj + vo; } else o2 = obj + off; }
      if (upcast(s, t, o2, b, target, adj, depth + 1)) return true; }
  }
  return false;
}
// unwind from frame index `from` (its current instruction is the call that throws)
bool Engine::raise(State* s, int t, u64 exc, int from, bool phase1) {
  bool ok = true; u64 obj = rd(s, t, exc, 8, ok), ti = rd(s, t, exc + 8, 8, ok);
  if (!ok) { // merged exception objects: split
    for (int k = 0; k < 2; k++) { Slot* sl; i64 off; if (checkAddr(s, exc + 8 * k, 8, false, sl, off)) { report(s, "memory: bad exception object", "raise", s->hint); kill(s); return false; } V v = readAt(s, t, sl, off, 8); u64 x; if (v.n) concretize(s, v.n, x); }
    ok = true; obj = rd(s, t, exc, 8, ok); ti = rd(s, t, exc + 8, 8, ok); if (!ok) fatal("symbolic exception");
  }
  auto& st = s->th[t].st;
  auto handler = [&](const DInst& d, u32& sel, u64& adj, bool& isCatch) -> bool {
    Frame* fr = nullptr; (void)fr;
    const Edge& ue = d.e[1]; DFunc* f = getFunc(d.I->getFunction()); u32 ip = ue.target;
    DInst& lp = f->ins[ip]; if (lp.op != D_LPAD) fatal("landing pad expected");
    for (auto& c : lp.clauses) {
      if (c.isFilter) { bool in = false; u64 a2; for (u64 x : c.filt) if (upcast(s, t, obj, ti, x, a2)) in = true; if (!in) { sel = (u32)-1; adj = obj; isCatch = true; return true; } continue; }
      if (c.ti == 0) { sel = typeId(0); adj = obj; isCatch = true; return true; }
      u64 a; if (upcast(s, t, obj, ti, c.ti, a)) { sel = typeId(c.ti); adj = a; isCatch = true; return true; }
    }
    sel = 0; adj = obj; isCatch = false; return lp.cleanup;
  };
  if (phase1) {
    bool found = false;
    for (int i = from; i >= 0 && !found; i--) { const DInst& d = st[i]->f->ins[st[i]->ip]; if (d.op == D_CALL && d.invoke) { u32 sel; u64 adj; bool c; if (handler(d, sel, adj, c) && c) found = true; } }
    if (!found) { std::string tn; if (aregion(ti) == R_CONST) tn = g_cobjs[aslot(ti)].name; 
      auto it = g_symaddr.find("vf_cfg_terminate"); bool ok = true; if (it != g_symaddr.end() && rd(s, t, it->second, 4, ok) && ok) { reached["terminated"]++; kill(s); return false; }
      report(s, "uncaught exception " + tn + " (std::terminate)", tn, s->hint); kill(s); return false; }
  }
  for (int i = from; i >= 0; i--) {
    const DInst& d = st[i]->f->ins[st[i]->ip];
    if (d.op == D_CALL && d.invoke) { u32 sel; u64 adj; bool c;
      if (handler(d, sel, adj, c)) {
        while ((int)st.size() > i + 1) { s->stack[t].resize(st.back()->salloc); st.pop_back(); }
        Frame* fr = st.back().wr(); fr->pruned = false; applyEdge(fr, d.e[1]);
        s->th[t].lp[0] = VC_(exc); s->th[t].lp[1] = VC_(sel);
        if (c) { Slot* sl; i64 off; if (!checkAddr(s, exc + 56, 8, true, sl, off)) writeAt(sl, off, 8, VC_(adj)); }
        return true; } }
  }
  report(s, "exception left its thread", "raise", s->hint); kill(s); return false;
}
void Engine::run(State* s, int t, int mode) {
  s->ndidx = 0; s->steps = 0; s->th[t].fresh = 0; s->th[t].mov = 0; s->th[t].rel = 0;
  Frame* fr = s->th[t].st.back().p; s->th[t].dirty = true; bool skip = true;
  if (fr->ip < fr->f->ins.size()) { const DInst& d = fr->f->ins[fr->ip];
    if (d.op == D_CALL && (d.builtin == B_SCHED || d.builtin == B_AWAIT)) { fr = s->th[t].st.back().wr(); fr->pruned = false; V m = VC_(mode); finishCall(s, t, fr, d, &m, 1); skip = false; } }
  work.push_back(s); bool first = true;
  while (!work.empty()) { State* x = work.back(); work.pop_back(); exec(x, t, skip && first); first = false; if (conc && stopConc) { while (!work.empty()) { kill(work.back()); work.pop_back(); } } }
}
#define REG(o) ((o).reg ? R[(o).r] : VC_((o).c))
void Engine::exec(State* s, int t, bool skipYield) {
  Thread* th = &s->th[t];
  Frame* fr = th->st.back().wr(); fr->pruned = false; V* R = fr->r.data();
  auto reload = [&]() { th = &s->th[t]; fr = th->st.back().wr(); fr->pruned = false; R = fr->r.data(); };
  for (;;) {
    const DInst& d = fr->f->ins[fr->ip];
    ninst++;
    if (++s->steps > g_opt.maxSteps) { report(s, "step bound exceeded (endless loop?) in " + fr->f->name, fr->f->name, s->hint); kill(s); return; }
    if (d.marked && !skipYield) {
      bool y = true; V p = d.op == D_LOAD || d.op == D_STORE ? REG(d.a[0]) : VC_(0);
      if ((d.op == D_LOAD || d.op == D_STORE) && !p.n) { Slot* sl; i64 off; if (!checkAddr(s, p.c, 1, false, sl, off)) y = sl->acc || s->th.size() > 1 && aregion(p.c) == R_GLOB; }
      if (fr->f->norace || s->ghost) y = false;
      if (conc) ev[t]++;
      if (y) { out.push_back(s); return; }
    }
    skipYield = false;
    switch (d.op) {
    case D_NOP: fr->ip++; break;
    case D_BIN: {
      V a = REG(d.a[0]), b = REG(d.a[1]);
      if (d.sub >= O_UDIV && d.sub <= O_SREM) {
        if (!b.n && !b.c) { report(s, "division by zero in " + instLoc(&d), instLoc(&d), s->hint); kill(s); return; }
        if (b.n) { Node* z = mkEq(b.n, nodeConst(d.w, 0)); ModelP m; if (check(s, z, &m)) { report(s, "division by zero in " + instLoc(&d), instLoc(&d), m); if (!check(s, mkNot(z), &m)) { kill(s); return; } addc(s, mkNot(z)); s->hint = m; } } }
      if (!a.n && !b.n) R[d.dst] = VC_(foldBin(d.sub, d.w, a.c, b.c));
      else R[d.dst] = VN(mkBin(d.sub, toN(a, d.w), toN(b, d.w)));
      fr->ip++; break; }
    case D_ICMP: {
      V a = REG(d.a[0]), b = REG(d.a[1]); u8 op; bool sw = false, ng = false;
      switch (d.sub) { case CmpInst::ICMP_EQ: op = O_EQ; break; case CmpInst::ICMP_NE: op = O_EQ; ng = true; break; case CmpInst::ICMP_ULT: op = O_ULT; break; case CmpInst::ICMP_ULE: op = O_ULE; break;
        case CmpInst::ICMP_UGT: op = O_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = O_ULE; sw = true; break; case CmpInst::ICMP_SLT: op = O_SLT; break; case CmpInst::ICMP_SLE: op = O_SLE; break;
        case CmpInst::ICMP_SGT: op = O_SLT; sw = true; break; default: op = O_SLE; sw = true; }
      if (sw) std::swap(a, b);
      if (!a.n && !b.n) R[d.dst] = VC_(foldBin(op, d.w, a.c, b.c) ^ ng);
      else { Node* r = mkBin(op, toN(a, d.w), toN(b, d.w)); R[d.dst] = VN(ng ? mkNot(r) : r); }
      fr->ip++; break; }
    case D_SELECT: {
      V c = REG(d.a[0]); u32 n = d.ndst; u64 f; if (c.n && factOf(s, c.n, f)) c = VC_(f);
      for (u32 i = 0; i < n; i++) { V x = REG(d.a[1 + i]), y = REG(d.a[1 + n + i]); if (!c.n) R[d.dst + i] = c.c ? x : y; else R[d.dst + i] = VN(mkIte(c.n, toN(x, d.imm[i]), toN(y, d.imm[i]))); }
      fr->ip++; break; }
    case D_TRUNC: { V a = REG(d.a[0]); R[d.dst] = a.n ? VN(mkExtract(a.n, 0, d.w2)) : VC_(a.c & maskw(d.w2)); fr->ip++; break; }
    case D_ZEXT: { V a = REG(d.a[0]); R[d.dst] = a.n ? VN(mkZext(a.n, d.w2)) : a; fr->ip++; break; }
    case D_SEXT: { V a = REG(d.a[0]); R[d.dst] = a.n ? VN(mkSext(a.n, d.w2)) : VC_((u64)sx(a.c, d.w) & maskw(d.w2)); fr->ip++; break; }
    case D_COPY: { if (d.ndst == 1) R[d.dst] = REG(d.a[0]); else { std::vector<V> tmp; for (auto& o : d.a) tmp.push_back(REG(o)); for (u32 i = 0; i < d.ndst; i++) R[d.dst + i] = tmp[i]; }
      if (d.I->getOpcode() == Instruction::Call || d.I->getOpcode() == Instruction::Invoke) { if (d.invoke) applyEdge(fr, d.e[0]); else fr->ip++; } else fr->ip++; break; }
    case D_MINMAX: { V a = REG(d.a[0]), b = REG(d.a[1]); Node *x = toN(a, d.w), *y = toN(b, d.w);
      Node* r; switch (d.sub) { case 0: r = mkIte(mkBin(O_ULT, x, y), x, y); break; case 1: r = mkIte(mkBin(O_ULT, x, y), y, x); break; case 2: r = mkIte(mkBin(O_SLT, x, y), x, y); break; case 3: r = mkIte(mkBin(O_SLT, x, y), y, x); break;
        case 4: r = mkIte(mkBin(O_ULT, x, y), nodeConst(d.w, 0), mkBin(O_SUB, x, y)); break; default: { Node* sm = mkBin(O_ADD, x, y); r = mkIte(mkBin(O_ULT, sm, x), nodeConst(d.w, ~0ull), sm); } }
      R[d.dst] = VN(r); fr->ip++; break; }
    case D_ABS: { Node* x = toN(REG(d.a[0]), d.w); R[d.dst] = VN(mkIte(mkBin(O_SLT, x, nodeConst(d.w, 0)), mkBin(O_SUB, nodeConst(d.w, 0), x), x)); fr->ip++; break; }
    case D_FSHL: { Node *x = toN(REG(d.a[0]), d.w), *y = toN(REG(d.a[1]), d.w); V z = REG(d.a[2]); if (z.n) fatal("symbolic funnel shift"); u64 k = z.c % d.w; if (d.sub) k = (d.w - k) % d.w; 
      R[d.dst] = VN(k == 0 ? (d.sub ? y : x) : mkBin(O_OR, mkBin(O_SHL, x, nodeConst(d.w, k)), mkBin(O_LSHR, y, nodeConst(d.w, d.w - k)))); fr->ip++; break; }
    case D_CTPOP: case D_CTZ: case D_CTLZ: case D_BSWAP: { V a = REG(d.a[0]); u64 x; if (a.n) { concretize(s, a.n, x); reload(); } else x = a.c;
      u64 r = d.op == D_CTPOP ? __builtin_popcountll(x) : d.op == D_CTZ ? (x ? __builtin_ctzll(x) : d.w) : d.op == D_CTLZ ? (x ? __builtin_clzll(x) - (64 - d.w) : d.w) : __builtin_bswap64(x) >> (64 - d.w);
      R[d.dst] = VC_(r); fr->ip++; break; }
    case D_OVF: { Node *x = toN(REG(d.a[0]), d.w), *y = toN(REG(d.a[1]), d.w); Node *r, *o; u8 w = d.w; Node* zero = nodeConst(w, 0);
      switch (d.sub) {
      case 0: r = mkBin(O_ADD, x, y); { Node *sxn = mkBin(O_SLT, x, zero), *syn = mkBin(O_SLT, y, zero), *sr = mkBin(O_SLT, r, zero); o = mkAnd(mkEq(sxn, syn), mkNot(mkEq(sxn, sr))); } break;
      case 1: r = mkBin(O_ADD, x, y); o = mkBin(O_ULT, r, x); break;
      case 2: r = mkBin(O_SUB, x, y); { Node *sxn = mkBin(O_SLT, x, zero), *syn = mkBin(O_SLT, y, zero), *sr = mkBin(O_SLT, r, zero); o = mkAnd(mkNot(mkEq(sxn, syn)), mkNot(mkEq(sxn, sr))); } break;
      case 3: r = mkBin(O_SUB, x, y); o = mkBin(O_ULT, x, y); break;
      case 4: r = mkBin(O_MUL, x, y); o = mkBin(O_SMULOVF, x, y); break;
      default: r = mkBin(O_MUL, x, y); o = mkBin(O_UMULOVF, x, y); }
      R[d.dst] = VN(r); R[d.dst + 1] = VN(o); fr->ip++; break; }
    case D_GEP: {
      V p = REG(d.a[0]);
      if (!p.n) { bool allc = true; u64 acc = p.c + d.imm[0]; for (size_t i = 1; i < d.a.size(); i++) { V x = REG(d.a[i]); if (x.n) { allc = false; break; } acc += (u64)sx(x.c, d.imm[2 * i]) * d.imm[2 * i - 1]; } if (allc) { R[d.dst] = VC_(acc); fr->ip++; break; } }
      Node* r = mkBin(O_ADD, toN(p, 64), nodeConst(64, d.imm[0]));
      for (size_t i = 1; i < d.a.size(); i++) { V x = REG(d.a[i]); Node* xn = mkSext(toN(x, d.imm[2 * i]), 64); r = mkBin(O_ADD, r, mkBin(O_MUL, xn, nodeConst(64, d.imm[2 * i - 1]))); }
      R[d.dst] = VN(r); fr->ip++; break; }
    case D_LOAD: {
      V p = REG(d.a[0]);
      if (d.ndst == 1) { V v; if (!load(s, t, p, d.imm[0], &d, v, d.atomic)) return; R[d.dst] = v; }
      else for (u32 i = 0; i < d.ndst; i++) { V q = p.n ? VN(mkBin(O_ADD, p.n, nodeConst(64, d.imm[2 * i + 1]))) : VC_(p.c + d.imm[2 * i + 1]); V v; if (!load(s, t, q, d.imm[2 * i], &d, v)) return; R[d.dst + i] = v; }
      if (d.atomic && !g_opt.norace) hbAcquire(s, t, p, d.ord < 4);
      fr->ip++; break; }
    case D_STORE: {
      V p = REG(d.a[0]);
      if (d.atomic && !g_opt.norace) hbRelease(s, t, p, false, d.ord < 5);
      for (size_t i = 1; i < d.a.size(); i++) { V q = p; u64 o = d.imm[2 * (i - 1) + 1]; if (o) q = p.n ? VN(mkBin(O_ADD, p.n, nodeConst(64, o))) : VC_(p.c + o); if (!store(s, t, q, d.imm[2 * (i - 1)], REG(d.a[i]), &d, d.atomic)) return; }
      fr->ip++; break; }
    case D_RMW: {
      V p = REG(d.a[0]), v = REG(d.a[1]), old; if (!load(s, t, p, d.w, &d, old, true)) return;
      Node *o = toN(old, d.w), *x = toN(v, d.w), *n;
      switch (d.sub) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkBin(O_ADD, o, x); break; case AtomicRMWInst::Sub: n = mkBin(O_SUB, o, x); break; case AtomicRMWInst::And: n = mkBin(O_AND, o, x); break;
        case AtomicRMWInst::Or: n = mkBin(O_OR, o, x); break; case AtomicRMWInst::Xor: n = mkBin(O_XOR, o, x); break; case AtomicRMWInst::Nand: n = mkNot(mkBin(O_AND, o, x)); break; default: fatal("atomicrmw op"); }
      if (!g_opt.norace) { hbAcquire(s, t, p, !(d.ord == 4 || d.ord >= 6)); hbRelease(s, t, p, true, d.ord < 5); }
      if (!store(s, t, p, d.w, VN(n), &d, true)) return;
      R[d.dst] = old; fr->ip++; break; }
    case D_CMPXCHG: {
      V p = REG(d.a[0]), e = REG(d.a[1]), v = REG(d.a[2]), old; if (!load(s, t, p, d.w, &d, old, true)) return;
      Node* ok = mkEq(toN(old, d.w), toN(e, d.w)); ModelP m;
      int dc = decide(s, ok, &m);
      if (dc >= 2) { State* o = clone(s); Node* mine = dc == 2 ? ok : mkNot(ok); addc(o, mkNot(mine)); o->hint = m; work.push_back(o); addc(s, mine); dc = dc == 2; reload(); }
      if (!g_opt.norace) { u8 ord = dc ? d.ord : d.ord2; hbAcquire(s, t, p, !(ord == 4 || ord >= 6)); if (dc) hbRelease(s, t, p, true, ord < 5); }
      if (dc) { if (!store(s, t, p, d.w, v, &d, true)) return; }
      R[d.dst] = old; R[d.dst + 1] = VC_(dc); fr->ip++; break; }
    case D_FENCE: {
      if (d.ord == 4 || d.ord >= 6) hbCopy(s, KB_ACQ + t, t, true, N_T);
      if (d.ord >= 5) hbCopy(s, t, KB_REL + t, false, N_T);
      fr->ip++; break; }
    case D_BR: applyEdge(fr, d.e[0]); break;
    case D_CBR: {
      V c = REG(d.a[0]);
      if (!c.n) { applyEdge(fr, d.e[c.c ? 0 : 1]); break; }
      ModelP m; int dc = decide(s, c.n, &m);
      if (dc >= 2) { bool mine = dc == 2; State* o = clone(s); addc(o, mine ? mkNot(c.n) : c.n); o->hint = m; { Frame* of = o->th[t].st.back().wr(); applyEdge(of, d.e[mine ? 1 : 0]); } work.push_back(o); addc(s, mine ? c.n : mkNot(c.n)); reload(); dc = mine; }
      applyEdge(fr, d.e[dc ? 0 : 1]); break; }
    case D_SWITCH: {
      V c = REG(d.a[0]); u64 v; if (c.n) { 
        if (!factOf(s, c.n, v)) { // split per case
          int taken = -1; ModelP m;
          for (size_t i = 0; i < d.imm.size() && taken < 0; i++) { Node* eq = mkEq(c.n, nodeConst(d.w, d.imm[i])); if (eq == N_F) continue; int dc = decide(s, eq, &m); if (dc == 0) continue; if (dc == 1) { taken = i; break; }
            State* o = clone(s); addc(o, dc == 2 ? mkNot(eq) : eq); o->hint = m;
            if (dc == 2) { work.push_back(o); addc(s, eq); taken = i; }
            else { Frame* of = o->th[t].st.back().wr(); applyEdge(of, d.e[i + 1]); work.push_back(o); addc(s, mkNot(eq)); } }
          reload(); applyEdge(fr, d.e[taken + 1]); break; }
      } else v = c.c;
      size_t k = 0; for (size_t i = 0; i < d.imm.size(); i++) if (d.imm[i] == v) { k = i + 1; break; }
      applyEdge(fr, d.e[k]); break; }
    case D_ALLOCA: { u64 a = alloc(s, s->stack[t], R_STACK + t, d.imm[0], 0); s->stack[t].back().priv = d.sub; R[d.dst] = VC_(a); fr->ip++; break; }
    case D_LIFE: { V p = REG(d.a[0]); if (!p.n) { Slot* sl; i64 off; u64 n = d.imm[0]; if (!checkAddr(s, p.c, 0, true, sl, off)) { if (n == ~0ull) n = sl->o->size - off; Obj* o = sl->o.wr(); clearRange(o, off, n); memset(&o->st[off], 0, n); memset(&o->by[off], 0, n); if (off == 0 && n == sl->o->size) { if (d.sub == 1) sl->acc = Ref<AccInfo>(); else if (sl->acc) access(s, t, sl, 0, n, true, false, &d); } } } fr->ip++; break; }
    case D_MEMSET: { V p = REG(d.a[0]), v = REG(d.a[1]), n = REG(d.a[2]); u64 len = n.c; if (n.n) { concretize(s, n.n, len); reload(); } u64 pa = p.c; if (p.n) { concretize(s, p.n, pa); reload(); }
      if (len) { Tgts T; if (!resolve(s, t, VC_(pa), len, true, &d, T)) return; access(s, t, T.f.sl, T.f.off, len, true, false, &d); Obj* o = T.f.sl->o.wr(); 
        if (v.n) { for (u64 i = 0; i < len; i++) writeAt(T.f.sl, T.f.off + i, 1, v); }
        else { clearRange(o, T.f.off, len); memset(&o->by[T.f.off], (int)v.c, len); memset(&o->st[T.f.off], 1, len); for (u64 i = 0; i + 8 <= len; i += 8) o->wd[T.f.off + i] = 8; } }
      fr->ip++; break; }
    case D_MEMCPY: { V p = REG(d.a[0]), q = REG(d.a[1]), n = REG(d.a[2]); u64 len = n.c; if (n.n) { concretize(s, n.n, len); reload(); } u64 pa = p.c, qa = q.c; if (p.n) { concretize(s, p.n, pa); reload(); } if (q.n) { concretize(s, q.n, qa); reload(); }
      if (len) { Tgts T, Q; if (!resolve(s, t, VC_(qa), len, false, &d, Q)) return; if (!resolve(s, t, VC_(pa), len, true, &d, T)) return;
        access(s, t, Q.f.sl, Q.f.off, len, false, false, &d); access(s, t, T.f.sl, T.f.off, len, true, false, &d);
        Ref<Obj> src = Q.f.sl->o; Obj* o = T.f.sl->o.wr(); 
        std::vector<u8> by(src->by.begin() + Q.f.off, src->by.begin() + Q.f.off + len), st(src->st.begin() + Q.f.off, src->st.begin() + Q.f.off + len), wd(src->wd.begin() + Q.f.off, src->wd.begin() + Q.f.off + len); std::vector<Sym> sy = src->sy;
        clearRange(o, T.f.off, len);
        for (u64 i = 0; i < len; i++) { o->by[T.f.off + i] = by[i]; o->st[T.f.off + i] = st[i]; o->wd[T.f.off + i] = i + wd[i] <= len ? wd[i] : 0; }
        for (auto& y : sy) { i64 lo = std::max<i64>(y.off, Q.f.off), hi = std::min<i64>(y.off + y.n, Q.f.off + (i64)len); if (lo >= hi) continue;
          Node* x = mkExtract(y.v, (lo - y.off) * 8, (hi - lo) * 8); u16 b = lo - Q.f.off + T.f.off;
          if (isC(x)) { for (int k = 0; k < hi - lo; k++) { o->st[b + k] = 1; o->by[b + k] = x->k >> (8 * k); } } else o->sy.push_back({b, (u8)(hi - lo), x}); } }
      fr->ip++; break; }
    case D_RET: {
      V rv[16]; u32 n = d.a.size(); for (u32 i = 0; i < n && i < 16; i++) rv[i] = REG(d.a[i]);
      s->stack[t].resize(fr->salloc); th->st.pop_back();
      if (th->st.empty()) { th->status = 1; out.push_back(s); return; }
      reload(); finishCall(s, t, fr, fr->f->ins[fr->ip], rv, n); break; }
    case D_UNREACH: report(s, (d.sub ? "trap executed in " : "unreachable code executed in ") + instLoc(&d), instLoc(&d), s->hint); kill(s); return;
    case D_LPAD: R[d.dst] = th->lp[0]; if (d.ndst > 1) R[d.dst + 1] = th->lp[1]; fr->ip++; break;
    case D_RESUME: { V e = REG(d.a[0]); u64 ev_; if (e.n) { concretize(s, e.n, ev_); reload(); } else ev_ = e.c;
      s->stack[t].resize(fr->salloc); th->st.pop_back(); if (th->st.empty()) { report(s, "exception left its thread", "resume", s->hint); kill(s); return; }
      if (!raise(s, t, ev_, th->st.size() - 1, false)) return; reload(); break; }
    case D_CALL: {
      DFunc* f = d.callee; 
      if (!f) { V p = REG(d.a[0]); u64 a = p.c; if (p.n) { concretize(s, p.n, a); reload(); } f = funcAt(a); if (!f) { report(s, "call through an invalid function pointer in " + instLoc(&d), instLoc(&d), s->hint); kill(s); return; } }
      if (f->builtin) { bool stop = false; DInst const& dd = d; int sb = dd.builtin; if (!sb) const_cast<DInst&>(dd).builtin = f->builtin; if (!builtin(s, t, d, fr, stop)) { return; } if (stop) return; reload(); break; }
      std::vector<V> args; for (size_t i = 0; i < d.args.size(); i++) { auto [st, n] = d.args[i];
        if (d.imm[i]) { V p = REG(d.a[st]); u64 pa = p.c; if (p.n) { concretize(s, p.n, pa); reload(); } Slot* sl; i64 off; const char* e = checkAddr(s, pa, d.imm[i], false, sl, off); if (e) { report(s, std::string("memory: ") + e + " in " + instLoc(&d), instLoc(&d), s->hint); kill(s); return; }
          Ref<Obj> so = sl->o; u64 na = alloc(s, s->stack[t], R_STACK + t, d.imm[i], 0); Slot& ns = s->stack[t].back(); Obj* o = ns.o.p;
          for (u64 k = 0; k < d.imm[i]; k++) { o->by[k] = so->by[off + k]; o->st[k] = so->st[off + k]; o->wd[k] = so->wd[off + k]; if (o->st[k] == 2) { Slot tmp; tmp.o = so; V v = readAt(s, t, &tmp, off + k, 1); o->st[k] = 0; o->wd[k] = 0; writeAt(&ns, k, 1, v); o = ns.o.p; } }
          args.push_back(VC_(na)); }
        else for (u32 k = 0; k < n; k++) args.push_back(REG(d.a[st + k])); }
      u32 sa = s->stack[t].size(); for (size_t i = 0; i < d.imm.size(); i++) if (d.imm[i]) sa--; // byval copies belong to the callee
      if (!pushCall(s, t, f, args, &d)) return; 
      s->th[t].st.back()->salloc = sa; reload(); break; }
    case D_FP: { V a = REG(d.a[0]), b = d.a.size() > 1 ? REG(d.a[1]) : VC_(0); if (a.n) { u64 x; concretize(s, a.n, x); a = VC_(x); reload(); } if (b.n) { u64 x; concretize(s, b.n, x); b = VC_(x); reload(); }
      double x, y; if (d.w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float fx, fy; memcpy(&fx, &a.c, 4); memcpy(&fy, &b.c, 4); x = fx; y = fy; }
      double r = 0; switch (d.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FNeg: r = -x; break; default: r = fmod(x, y); }
      u64 rv = 0; if (d.w == 64) memcpy(&rv, &r, 8); else { float fr_ = r; memcpy(&rv, &fr_, 4); } R[d.dst] = VC_(rv); fr->ip++; break; }
    case D_FCMP: { V a = REG(d.a[0]), b = REG(d.a[1]); if (a.n || b.n) fatal("symbolic float"); double x, y; if (d.w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float fx, fy; memcpy(&fx, &a.c, 4); memcpy(&fy, &b.c, 4); x = fx; y = fy; }
      bool un = std::isnan(x) || std::isnan(y), r; switch (d.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; default: r = un || x != y; }
      R[d.dst] = VC_(r); fr->ip++; break; }
    case D_FCONV: { V a = REG(d.a[0]); if (a.n) { u64 x; concretize(s, a.n, x); a = VC_(x); reload(); } u64 r = 0; double x = 0;
      if (d.sub == Instruction::SIToFP) x = (double)sx(a.c, d.w); else if (d.sub == Instruction::UIToFP) x = (double)a.c; else { if (d.w == 64) memcpy(&x, &a.c, 8); else { float f; memcpy(&f, &a.c, 4); x = f; } }
      if (d.sub == Instruction::FPToSI) r = (u64)(i64)x & maskw(d.w2); else if (d.sub == Instruction::FPToUI) r = (u64)x & maskw(d.w2); else if (d.w2 == 64) memcpy(&r, &x, 8); else { float f = x; memcpy(&r, &f, 4); }
      R[d.dst] = VC_(r); fr->ip++; break; }
    case D_UNSUP: { std::string sI; raw_string_ostream os(sI); d.I->print(os); fatal("unsupported instruction (" + *d.note + ") in " + instLoc(&d) + ": " + sI); }
    default: fatal("instruction");
    }
  }
}
static std::string cstr(State* s, Engine* e, int t, V p) { std::string r; if (p.n) { if (p.n->cl) p = VC_((*p.n->vs)[0]); else return "?"; } bool ok = true; for (int i = 0; i < 300; i++) { char c = (char)e->rd(s, t, p.c + i, 1, ok); if (!ok || !c) break; r += c; } return r; }
bool Engine::builtin(State* s, int t, const DInst& d, Frame* fr, bool& stop) {
  V* R = fr->r.data();
  auto A = [&](size_t i) { return REG(d.a[d.args[i].first]); };
  auto ret = [&](V v) { Frame* f = s->th[t].st.back().wr(); f->pruned = false; finishCall(s, t, f, d, &v, 1); };
  DFunc* cf = d.callee;
  switch (d.builtin) {
  case B_TID: ret(VC_(t)); return true;
  case B_SCHED: { bool alone = true; for (size_t i = 0; i < s->th.size(); i++) if ((int)i != t && s->th[i].status != 1) alone = false; if (alone) { if (conc) ev[t]++; ret(VC_(0)); return true; } }
  /* fallthrough */
  case B_AWAIT: if (s->th[t].opt) { g_restart = true; stopConc = true; kill(s); stop = true; return true; }
    if (conc) ev[t]++; out.push_back(s); stop = true; return true;
  case B_SPAWN: {
    V fn = A(0), arg = A(1); u64 fa = fn.c; if (fn.n) { concretize(s, fn.n, fa); }
    DFunc* f = funcAt(fa); if (!f) fatal("spawn of a non-function");
    int nt = s->th.size(); if (nt >= MAXT) fatal("too many threads");
    if (nt + 1 > maxThreads) maxThreads = nt + 1;
    s->th.emplace_back(); s->heap.emplace_back(); s->stack.emplace_back();
    hbCopy(s, t, nt, false, N_T);
    s->th[nt].fresh = 1;
    if (!pushCall(s, nt, f, {arg}, &d)) return false;
    ret(VC_(nt)); return true; }
  case B_MOV: { Thread& T = s->th[t]; u64 k = A(0).c; u64 r = 0; if (k == 0) r = g_reduce && T.mov; else if (k == 1) T.mov = 1; else if (k == 2) { T.mov = 0; T.rel = 1; } else if (k == 7) r = g_reduce && T.rel; else if (k == 3) T.opt++; else if (k == 4) { if (T.opt) T.opt--; } else if (k == 5) { if (g_reduce) { g_restart = stopConc = true; kill(s); stop = true; return false; } } else r = g_reduce; ret(VC_(r)); return true; }
  case B_NONDET: { V bits = A(0); u8 w = bits.c; if (!w || w > 64) w = 64; V v = fresh(s, t, "n", w); if (conc) trace.push_back({'N', t, v.c, 0}); ret(v.n ? VN(mkZext(v.n, 64)) : v); return true; }
  case B_ASSUME: { V c = A(0); if (!c.n) { if (!c.c) { kill(s); return false; } ret(VC_(0)); return true; }
    Node* b = c.n->w == 1 ? c.n : mkNot(mkEq(c.n, nodeConst(c.n->w, 0))); ModelP m; if (!check(s, b, &m)) { kill(s); return false; } s->hint = m; addc(s, b); ret(VC_(0)); return true; }
  case B_ASSERT: { V c = A(0); nassert++; std::string lab = cstr(s, this, t, A(1));
    if (!c.n) { if (!c.c) { report(s, "assert: " + lab, instLoc(&d), s->hint); kill(s); return false; } ret(VC_(0)); return true; }
    Node* b = c.n->w == 1 ? c.n : mkNot(mkEq(c.n, nodeConst(c.n->w, 0))); ModelP m; Node* nb = mkNot(b);
    if (check(s, nb, &m)) { report(s, "assert: " + lab, instLoc(&d), m); if (!check(s, b, &m)) { kill(s); return false; } s->hint = m; addc(s, b); }
    else { Node* k = b; u64 v = 1; if (b->op == O_NOT) { k = b->a; v = 0; } s->facts.push_back({k, v}); }
    ret(VC_(0)); return true; }
  case B_FAIL: report(s, "fail: " + cstr(s, this, t, A(0)), instLoc(&d), s->hint, ""); kill(s); return false;
  case B_EXIT: kill(s); return false;
  case B_REACH: reached[cstr(s, this, t, A(0))]++; ret(VC_(0)); return true;
  case B_REACHIF: { V c = A(0); std::string lab = cstr(s, this, t, A(1)); if (!reached.count(lab)) { ModelP m; if (c.n ? check(s, c.n->w == 1 ? c.n : mkNot(mkEq(c.n, nodeConst(c.n->w, 0))), &m) : c.c != 0) reached[lab]++; } ret(VC_(0)); return true; }
  case B_OBSERVE: if (conc) { V v = A(0); trace.push_back({'O', t, v.c, 0}); } ret(VC_(0)); return true;
  case B_PRINT: { V v = A(1); if (conc || g_opt.verbose) fprintf(stderr, "[L%d t%d] %s %s\n", level, t, cstr(s, this, t, A(0)).c_str(), v.n ? nodeStr(v.n).c_str() : std::to_string(v.c).c_str()); ret(VC_(0)); return true; }
  case B_MALLOC: { V n = A(0); u64 sz = n.c; if (n.n) concretize(s, n.n, sz); u64 a = alloc(s, s->heap[t], R_HEAP + t, sz, 0); ret(VC_(a)); return true; }
  case B_FREE: { V p = A(0); u64 a = p.c; if (p.n) concretize(s, p.n, a); if (!freeObj(s, t, a, &d)) return false; ret(VC_(0)); return true; }
  case B_HBREL: case B_HBACQ: { V p = A(0); if (!g_opt.norace) { if (d.builtin == B_HBREL) hbRelease(s, t, p, true); else hbAcquire(s, t, p); }
    ret(VC_(0)); return true; }
  case B_LKREL: case B_LKACQ: { V p = A(0); u64 a = p.c, f; bool one = !p.n; if (p.n && factOf(s, p.n, f)) { a = f; one = true; }
    if (!g_opt.norace) { if (d.builtin == B_LKREL) hbRelease(s, t, p, false); else hbAcquire(s, t, p); }
    if (d.builtin == B_LKACQ) { if (one) s->th[t].ls = lsAdd(s->th[t].ls, a); } else if (one) s->th[t].ls = lsDel(s->th[t].ls, a); else if (p.n->cl) for (u64 v : *p.n->vs) s->th[t].ls = lsDel(s->th[t].ls, v);
    ret(VC_(0)); return true; }
  case B_RAISE: { V p = A(0); u64 a = p.c; if (p.n) concretize(s, p.n, a); if (!raise(s, t, a, s->th[t].st.size() - 1, true)) return false; return true; }
  case B_NATIVE: ret(VC_(0)); return true;
  case B_LIVE: { Node* acc = nodeConst(64, 0); for (auto& h : s->heap) for (auto& sl : h) if (!sl.dead && sl.o) acc = mkBin(O_ADD, acc, sl.alive ? mkZext(sl.alive, 64) : nodeConst(64, 1)); 
      if (g_opt.verbose) { for (size_t h = 0; h < s->heap.size(); h++) for (size_t i = 0; i < s->heap[h].size(); i++) { auto& sl = s->heap[h][i]; if (!sl.dead && sl.o) fprintf(stderr, "  live heap t%zu #%zu size %u alive %s\n", h, i, sl.o->size, sl.alive ? nodeStr(sl.alive, 3).c_str() : "1"); } }
      ret(VN(acc)); return true; }
  case B_ALIVE: { V p = A(0); u64 a = p.c; if (p.n) concretize(s, p.n, a); Slot* sl; i64 off; const char* e = checkAddr(s, a, 1, false, sl, off); ret(e ? VC_(0) : sl->alive ? VN(sl->alive->w == 1 ? mkZext(sl->alive, 32) : sl->alive) : VC_(1)); return true; }
  case B_DYNCAST: { u64 v[3]; for (int i = 0; i < 3; i++) { V p = A(i); v[i] = p.c; if (p.n) concretize(s, p.n, v[i]); } if (!v[0]) { ret(VC_(0)); return true; }
    Tgts T; V vt; if (!load(s, t, VC_(v[0]), 64, &d, vt, false, true)) return false; u64 vta = vt.c; if (vt.n) concretize(s, vt.n, vta);
    bool ok = true; i64 ott = (i64)rd(s, t, vta - 16, 8, ok); u64 ti = rd(s, t, vta - 8, 8, ok); if (!ok) fatal("dynamic_cast vtable"); u64 adj = 0; if (!upcast(s, t, v[0] + ott, ti, v[2], adj)) adj = 0; ret(VC_(adj)); return true; }
  case B_CONCRETE: { V p = A(0); u64 a = p.c; if (p.n) concretize(s, p.n, a); ret(VC_(a)); return true; }
  case B_CASE: { V p = A(0); u64 a = p.c; if (p.n) concretize(s, p.n, a); s->tag = s->tag * 1000003 + a + 1; ret(VC_(a)); return true; }
  case B_DAEMON: { V p = A(0); s->th[t].daemon = p.c != 0; ret(VC_(0)); return true; }
  case B_GHOST: { V p = A(0); s->ghost = p.c != 0; ret(VC_(0)); return true; }
  }
  (void)cf; fatal("builtin");
}
Node* Engine::enabled(State* s, int t, Node*& tmo, Node*& spur) {
  tmo = spur = N_F; Thread& th = s->th[t]; if (th.status == 1) return N_F;
  Frame* fr = th.st.back().p; const DInst& d = fr->f->ins[fr->ip]; V* R = fr->r.data();
  if (d.op != D_CALL || d.builtin != B_AWAIT) return N_T;
  auto A = [&](size_t i) { return REG(d.a[d.args[i].first]); };
  auto cond = [&](V p, V v) -> Node* { if (!p.n && !p.c) return N_T; V x; 
    // read without killing the state
    Tgts T; Node* acc = nullptr; std::vector<u64> vals; if (!p.n) vals = {p.c}; else if (p.n->cl) vals = *p.n->vs; else { u64 x = s->hint->eval(p.n); vals.push_back(x); Node* c = mkNot(mkEq(p.n, nodeConst(64, x))); ModelP m; while (check(s, c, &m)) { if (vals.size() > 64) fatal("await pointer"); x = m->eval(p.n); vals.push_back(x); c = mkAnd(c, mkNot(mkEq(p.n, nodeConst(64, x)))); } }
    for (u64 a : vals) { Slot* sl; i64 off; const char* e = checkAddr(s, a, 4, false, sl, off); if (e) { if (!p.n) { report(s, std::string("memory: ") + e + " (waiting on a destroyed object) in " + instLoc(&d), instLoc(&d), s->hint); return N_F; } continue; } Node* x = toN(readAt(s, t, sl, off, 4), 32); acc = acc ? mkIte(mkEq(p.n, nodeConst(64, a)), x, acc) : x; }
    if (!acc) return N_F; return mkEq(acc, toN(v, 32)); };
  Node* c1 = cond(A(0), A(1)); Node* c2 = cond(A(2), A(3));
  V tm = A(4), sp = A(5); auto nz = [&](V v) { return v.n ? mkNot(mkEq(v.n, nodeConst(v.n->w, 0))) : v.c ? N_T : N_F; };
  tmo = mkAnd(c2, nz(tm)); spur = mkAnd(c2, nz(sp));
  return mkAnd(c1, c2);
}
