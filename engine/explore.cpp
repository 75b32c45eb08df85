#include "exec.h"
#include <unordered_set>
using namespace llvm;
static PC g_rootpc{N_T, nullptr, 0, N_T};
static void pruneFrame(Ref<Frame>& fr, bool top) {
  if (fr->pruned) return;
  Frame* f = fr.wr(); f->pruned = true;
  if (f->f->ins.empty()) return;
  const std::vector<u64>& L = liveBefore(f->f, f->ip, !top);
  for (u32 i = 0; i < f->r.size(); i++) if (!(L[i >> 6] >> (i & 63) & 1)) f->r[i] = VC_(0);
}
void Engine::prune(State* s) {
  if (!g_opt.norace && s->th.size() > 1) { u64 live = 0, fin = 0; for (size_t i = 0; i < s->th.size(); i++) (s->th[i].status == 1 ? fin : live) |= 1ull << i;
    auto slot = [&](Slot& sl) { if (!sl.acc) return; bool ch = false; for (auto& r : sl.acc->v) if ((r.k[0] & live) == live) ch = true; if (!ch) return; AccInfo* w = sl.acc.wr(); size_t j = 0; for (size_t i = 0; i < w->v.size(); i++) if ((w->v[i].k[0] & live) != live) { if (i != j) w->v[j] = w->v[i]; j++; } w->v.resize(j); if (!j) sl.acc = Ref<AccInfo>(); };
    for (auto& x : s->glob) slot(x); for (auto& h : s->heap) for (auto& x : h) slot(x); for (auto& h : s->stack) for (auto& x : h) slot(x); (void)fin; }
  for (auto& th : s->th) { if (!th.dirty) continue; th.dirty = false; for (size_t i = 0; i < th.st.size(); i++) pruneFrame(th.st[i], i + 1 == th.st.size()); th.lp[0] = th.lp[1] = VC_(0); }
}
void Engine::key(State* s, std::vector<u32>& k) {
  k.push_back(s->th.size());
  for (auto& th : s->th) { k.push_back(th.status | (u32)th.st.size() << 8 | (u32)th.daemon << 4); for (auto& f : th.st) { k.push_back(f->f->id); k.push_back(f->ip); } }
  if (s->tag) k.push_back(s->tag);
  if (g_opt.ctx >= 0) { k.push_back(s->nctx); k.push_back(s->last); }
  if (s->ghost) k.push_back(0xffffffff);
}
static bool sizesOk(std::vector<Slot>& a, std::vector<Slot>& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i].o && b[i].o && a[i].o->size != b[i].o->size) return false; return true; }
static void mergeObj(Obj* a, const Obj* b, Node* g) {
  u32 n = a->size;
  auto cellVal = [](const Obj* o, u32 off, u32 k) -> Node* { // all bytes defined
    Node* r = nullptr;
    for (u32 i = 0; i < k;) { Node* p; u32 c;
      if (o->st[off + i] != 2) { c = 0; u64 v = 0; while (i + c < k && o->st[off + i + c] != 2) { v |= (u64)o->by[off + i + c] << (8 * c); c++; } p = nodeConst(c * 8, v); }
      else { const Sym* f = nullptr; for (auto& y : o->sy) if (y.off <= off + i && off + i < (u32)y.off + y.n) f = &y; u32 lo = off + i - f->off; c = std::min<u32>(f->n - lo, k - i); p = mkExtract(f->v, lo * 8, c * 8); }
      r = r ? mkConcat(p, r) : p; i += c; }
    return r; };
  auto cellSz = [&](u32 i) -> u32 {
    u32 wa = a->st[i] ? a->wd[i] : 0, wb = b->st[i] ? b->wd[i] : 0; u32 k = std::max(wa, wb); if (!k) return 1;
    if (wa && wb && wa != wb) k = std::max(wa, wb);
    if (i + k > n || k > 8) return 1;
    for (u32 j = 1; j < k; j++) if (0) return 1;
    return k; };
  for (u32 i = 0; i < n;) {
    u32 k = cellSz(i);
    bool same = true; for (u32 j = 0; j < k; j++) { u8 x = a->st[i + j], y = b->st[i + j]; if (x != y || x == 2 || a->by[i + j] != b->by[i + j] && x == 1) { same = false; break; } }
    if (same) { i += k; continue; }
    bool aun = true, bun = true; for (u32 j = 0; j < k; j++) { if (a->st[i + j]) aun = false; if (b->st[i + j]) bun = false; }
    if (bun) { i += k; continue; }
    if (aun) { Node* y = cellVal(b, i, k); if (isC(y)) { for (u32 j = 0; j < k; j++) { a->st[i + j] = 1; a->by[i + j] = y->k >> (8 * j); } } else { for (u32 j = 0; j < k; j++) a->st[i + j] = 2; a->sy.push_back({(u16)i, (u8)k, y}); } a->wd[i] = k; i += k; continue; }
    Node *x = cellVal(a, i, k), *y = cellVal(b, i, k);
    if (x != y) {
      Node* r = mkIte(g, x, y);
      // replace cell in a
      std::vector<Sym> ns; for (auto& c : a->sy) { if (c.off >= i + k || c.off + c.n <= (int)i) { ns.push_back(c); continue; } for (u32 q = 0; q < c.n; q++) { u32 p = c.off + q; if (p >= i && p < i + k) continue; ns.push_back({(u16)p, 1, mkExtract(c.v, q * 8, 8)}); } }
      a->sy.swap(ns);
      for (u32 j = 1; j < k; j++) a->wd[i + j] = 0;
      a->wd[i] = k;
      if (isC(r)) for (u32 j = 0; j < k; j++) { a->st[i + j] = 1; a->by[i + j] = r->k >> (8 * j); }
      else { for (u32 j = 0; j < k; j++) a->st[i + j] = 2; a->sy.push_back({(u16)i, (u8)k, r}); }
    }
    i += k;
  }
  for (auto& c : a->sy) if (isC(c.v)) { /* constant single bytes may remain symbolic cells; harmless */ }
}
bool Engine::mergeSlots(State* A, State* B, std::vector<Slot>& a, std::vector<Slot>& b, Node* g) {
  if (b.size() > a.size()) { size_t o = a.size(); a.resize(b.size()); for (size_t i = o; i < b.size(); i++) { a[i] = b[i]; if (!a[i].dead) a[i].alive = mkAnd(mkNot(g), b[i].alive ? b[i].alive : N_T); } }
  for (size_t i = 0; i < a.size(); i++) {
    Slot& x = a[i];
    if (i >= b.size()) { if (!x.dead && x.o) x.alive = mkAnd(g, x.alive ? x.alive : N_T); continue; }
    Slot& y = b[i]; if (&x == &y) continue;
    if (x.dead && y.dead) continue;
    if (i < b.size() && x.o.p == y.o.p && x.alive == y.alive && x.dead == y.dead) {}
    else if (x.dead || !x.o) { bool xd = true; (void)xd; x.o = y.o; x.dead = y.dead; x.alive = mkAnd(mkNot(g), y.alive ? y.alive : N_T); x.acc = y.acc; continue; }
    else if (y.dead || !y.o) { x.alive = mkAnd(g, x.alive ? x.alive : N_T); continue; }
    else {
      Node* al = mkIte(g, x.alive ? x.alive : N_T, y.alive ? y.alive : N_T); x.alive = al == N_T ? nullptr : al;
      if (x.o.p != y.o.p) { bool eq = x.o->st == y.o->st && x.o->by == y.o->by && x.o->wd == y.o->wd && x.o->sy.size() == y.o->sy.size(); if (eq) for (size_t j = 0; j < x.o->sy.size(); j++) if (x.o->sy[j].off != y.o->sy[j].off || x.o->sy[j].v != y.o->sy[j].v) { eq = false; break; }
        if (!eq) mergeObj(x.o.wr(), y.o.p, g); }
    }
    if (g_opt.norace) continue;
    if (x.acc.p == y.acc.p) continue;
    Ref<AccInfo> rb = y.acc; if (!rb) rb = Ref<AccInfo>(new AccInfo); if (!x.acc) x.acc = Ref<AccInfo>(new AccInfo); AccInfo* ai = x.acc.wr(); size_t n0 = ai->v.size(); std::vector<bool> hit(n0, false); Node* ng = mkNot(g);
    for (auto& r : rb->v) { bool f = false;
      for (size_t j = 0; j < n0; j++) { auto& q = ai->v[j]; if (hit[j] || q.off != r.off || q.sz != r.sz || q.tid != r.tid || q.wr != r.wr || q.at != r.at) continue;
        hit[j] = f = true; q.ls = lsMeet(q.ls, r.ls); q.pres = mkIte(g, q.pres, r.pres); std::vector<int> bits; for (int w = 0; w < KB_N / 64; w++) for (u64 k = q.k[w] ^ r.k[w]; k; k &= k - 1) bits.push_back(w * 64 + __builtin_ctzll(k)); for (auto& z : q.sym) bits.push_back(z.first); for (auto& z : r.sym) bits.push_back(z.first);
        for (int b : bits) { Node *u = q.get(b), *v = r.get(b); if (u != v) q.set(b, mkIte(g, u, v)); } break; }
      if (!f) { Acc z = r; z.pres = mkAnd(ng, r.pres); if (z.pres != N_F) ai->v.push_back(z); } }
    for (size_t j = 0; j < n0; j++) if (!hit[j]) ai->v[j].pres = mkAnd(g, ai->v[j].pres);
  }
  return true;
}
static bool disjointC(Node* x, Node* y) {
  if (x->op == O_NOT && x->a == y || y->op == O_NOT && y->a == x) return true;
  if (x->op == O_INSET && y->op == O_INSET && x->a == y->a && !(x->k & y->k)) return true;
  return false;
}
bool Engine::merge(State* A, State* B) {
  if (!sizesOk(A->glob, B->glob)) return false;
  for (size_t i = 0; i < A->heap.size(); i++) if (!sizesOk(A->heap[i], B->heap[i])) return false;
  for (size_t i = 0; i < A->stack.size(); i++) { if (A->stack[i].size() != B->stack[i].size()) return false; if (!sizesOk(A->stack[i], B->stack[i])) return false; }
  for (size_t i = 0; i < A->th.size(); i++) for (size_t j = 0; j < A->th[i].st.size(); j++) if (A->th[i].st[j]->salloc != B->th[i].st[j]->salloc) return false;
  nmerge++;
  // path conditions
  std::vector<Node*> ca, cb; PC *pa = A->pc, *pb = B->pc;
  while (pa != pb) { if (pa->depth >= pb->depth) { ca.push_back(pa->c); pa = pa->up; } else { cb.push_back(pb->c); pb = pb->up; } }
  Node *d1 = N_T, *d2 = N_T; for (size_t i = ca.size(); i-- > 0;) d1 = mkAnd(d1, ca[i]); for (size_t i = cb.size(); i-- > 0;) d2 = mkAnd(d2, cb[i]);
  Node* g = d1; bool simple = false;
  size_t na = std::min<size_t>(ca.size(), 24), nb = std::min<size_t>(cb.size(), 24);
  for (size_t i = 0; i < na && !simple; i++) for (size_t j = 0; j < nb; j++) if (disjointC(ca[i], cb[j])) { g = ca[i]; simple = true; break; }
  // drop conjuncts common to both sides
  Node* common = N_T; { std::set<Node*> sb(cb.begin(), cb.end()); std::vector<Node*> ra, rb; std::set<Node*> cm; for (Node* x : ca) if (sb.count(x)) cm.insert(x); else ra.push_back(x); for (Node* x : cb) if (!cm.count(x)) rb.push_back(x);
    if (!cm.empty()) { d1 = d2 = N_T; for (size_t i = ra.size(); i-- > 0;) d1 = mkAnd(d1, ra[i]); for (size_t i = rb.size(); i-- > 0;) d2 = mkAnd(d2, rb[i]); for (Node* x : cm) common = mkAnd(common, x); if (!simple) g = d1; } }
  if (g == N_T) { g = mkNot(d2); }
  Node* c = mkOr(d1, d2);
  A->pc = pa;
  if (common != N_T) A->pc = new PC{common, A->pc, A->pc->depth + 1, mkAnd(A->pc->full, common)};
  if (c != N_T) A->pc = new PC{c, A->pc, A->pc->depth + 1, mkAnd(A->pc->full, c)};
  std::vector<Fact> nf; for (auto& f : A->facts) for (auto& h : B->facts) if (f.n == h.n && f.v == h.v) { nf.push_back(f); break; } A->facts.swap(nf);
  // memory
  mergeSlots(A, B, A->glob, B->glob, g);
  for (size_t i = 0; i < A->heap.size(); i++) mergeSlots(A, B, A->heap[i], B->heap[i], g);
  for (size_t i = 0; i < A->stack.size(); i++) mergeSlots(A, B, A->stack[i], B->stack[i], g);
  for (size_t i = 0; i < A->th.size(); i++) for (size_t j = 0; j < A->th[i].st.size(); j++) {
    Ref<Frame>&x = A->th[i].st[j], &y = B->th[i].st[j]; if (x.p == y.p) continue;
    bool eq = true; for (u32 r = 0; r < x->r.size(); r++) if (x->r[r].n != y->r[r].n || x->r[r].c != y->r[r].c) { eq = false; break; }
    if (eq) continue;
    Frame* f = x.wr();
    for (u32 r = 0; r < f->r.size(); r++) { V &u = f->r[r], &v = y->r[r]; if (u.n == v.n && u.c == v.c) continue; u8 w = f->f->rw[r]; u = VN(mkIte(g, toN(u, w), toN(v, w))); } }
  A->ndidx = std::max(A->ndidx, B->ndidx);
  for (size_t i = 0; i < A->th.size(); i++) A->th[i].ls = lsMeet(A->th[i].ls, B->th[i].ls);
  return true;
}
// ---- image re-parameterisation ----
// After each level, the symbolic content of every frontier state (memory cells, registers, liveness guards, happens-before
// knowledge) is a function of the history.  The solver enumerates the distinct value tuples it can take (all solutions of the
// path condition projected on those values); the state is then rewritten over one small selector variable, so that formulas
// never grow with the length of the run.  Values that depend on unconstrained inputs stay symbolic.
template <class F> static void eachNode(State* s, bool wr, F f) {
  auto slot = [&](Slot& sl) {
    if (sl.dead) { if (wr) { sl.alive = nullptr; sl.acc = Ref<AccInfo>(); } return; }
    if (sl.alive) f(sl.alive);
    if (sl.o && !sl.o->sy.empty()) { Obj* o = wr ? sl.o.wr() : sl.o.p; for (size_t i = 0; i < o->sy.size(); i++) f(o->sy[i].v);
      if (wr) { size_t j = 0; for (size_t i = 0; i < o->sy.size(); i++) { Sym y = o->sy[i]; if (isC(y.v)) { for (u32 q = 0; q < y.n; q++) { o->st[y.off + q] = 1; o->by[y.off + q] = y.v->k >> (8 * q); o->wd[y.off + q] = q ? 0 : y.n; } } else o->sy[j++] = y; } o->sy.resize(j); } }
    if (sl.acc) { bool any = false; for (auto& a : sl.acc->v) if (!isC(a.pres) || !a.sym.empty()) any = true;
      if (any) { AccInfo* w = wr ? sl.acc.wr() : sl.acc.p; for (auto& a : w->v) { f(a.pres); for (auto& x : a.sym) f(x.second); }
        if (wr) { size_t j = 0; for (size_t i = 0; i < w->v.size(); i++) { Acc a = w->v[i]; if (a.pres == N_F) continue; auto sy = a.sym; a.sym.clear(); for (auto& x : sy) a.set(x.first, x.second); w->v[j++] = a; } w->v.resize(j); if (!j) sl.acc = Ref<AccInfo>(); } } }
    if (wr && sl.alive == N_T) sl.alive = nullptr; if (wr && sl.alive == N_F) { sl.dead = true; sl.alive = nullptr; sl.acc = Ref<AccInfo>(); }
  };
  for (auto& x : s->glob) slot(x); for (auto& h : s->heap) for (auto& x : h) slot(x); for (auto& h : s->stack) for (auto& x : h) slot(x);
  for (auto& th : s->th) for (auto& fr : th.st) { bool any = false; for (auto& v : fr->r) if (v.n) any = true; if (!any) continue; Frame* w = wr ? fr.wr() : fr.p; for (size_t i = 0; i < w->r.size(); i++) if (w->r[i].n) { Node* n = w->r[i].n; f(n); if (wr) w->r[i] = VN(n); } }
}
static void cone(const std::vector<Node*>& roots, std::set<u32>& vars) { std::unordered_set<Node*> seen; std::vector<Node*> st(roots.begin(), roots.end()); while (!st.empty()) { Node* x = st.back(); st.pop_back(); if (isC(x) || !seen.insert(x).second) continue; if (x->op == O_VAR) { vars.insert(x->k); continue; } for (Node* y : {x->a, x->b, x->c}) if (y) st.push_back(y); } }
static void flat(const ModelP& m, u32 lim, std::unordered_map<u32, u64>& o) { if (!m) return; for (auto& x : m->vals) if (x.first < lim && x.first >= (m->base ? m->from : 0)) o.emplace(x.first, x.second); if (m->base) flat(m->base, std::min(lim, m->from), o); }
ModelP Engine::expand(ModelP m) {
  if (!m) return m; auto r = std::make_shared<Model>(); flat(m, ~0u, r->vals);
  auto get = [&](Node* v) -> u64 { auto it = r->vals.find(v->k); return it == r->vals.end() ? 0 : it->second; };
  for (size_t i = tables.size(); i-- > 0;) { auto& T = tables[i]; if (!r->vals.count(T.used->k)) continue; u64 p = 0; for (size_t d = 0; d < T.dig.size(); d++) p |= get(T.dig[d]) << (6 * d); if (p >= T.m.size()) continue; auto& e = T.m[p]; if (e.empty()) continue; u64 q = e.size() == 1 ? 0 : get(T.q); if (q >= e.size()) q = 0; for (auto it = r->vals.begin(); it != r->vals.end();) if (it->first < T.used->k) it = r->vals.erase(it); else ++it; for (auto& x : e[q]) if (x.first < T.used->k) r->vals[x.first] = x.second; }  // what the model says about earlier variables is unconstrained: the table has the values
  return r;
}
void Engine::reparam(std::vector<State*>& front) {
  auto t0 = std::chrono::steady_clock::now();
  tables.emplace_back(); size_t ti = tables.size() - 1; char nb[40];
  struct Grp { State* s; std::vector<ModelP> tup; std::vector<std::vector<u64>> val; std::vector<Node*> nodes; bool keep; };
  std::vector<Grp> gs; static const size_t LIM = getenv("BSX_TUPLES") ? atoi(getenv("BSX_TUPLES")) : 1024;
  for (State* s : front) {
    std::vector<Node*> nodes, hard; { std::unordered_set<Node*> seen; eachNode(s, false, [&](Node* n) { if (!isC(n) && seen.insert(n).second) nodes.push_back(n); }); }
    std::vector<Node*> en; for (Node* n : nodes) (n->cl || n->w == 1 ? en : hard).push_back(n);
    bool keep = false;
    { std::vector<Node*> h2; for (Node* n : hard) { std::set<u32> R; bool free_ = n->hard; if (!free_) { cone({n}, R); for (u32 v : R) { char c = g_vars[v].name[0]; if (c != 's' && c != 'l' && c != 'p' && c != 'q' && g_vars[v].w > 8) free_ = true; } } (free_ ? h2 : en).push_back(n); } hard.swap(h2); }
    if (!hard.empty()) { std::set<u32> R, P; cone(hard, R); std::vector<Node*> o = en; o.push_back(s->pc->full); cone(o, P); for (u32 v : R) if (P.count(v)) keep = true;
      if (getenv("BSX_RP") && keep) { fprintf(stderr, "kept: %s\n", nodeStr(hard[0], 5).c_str()); } }
    std::vector<ModelP> tup; std::vector<std::vector<u64>> val; 
    if (!keep) {
      Node* rest = N_T; ModelP m = s->hint; int er = -1;
      { std::vector<u64> v; for (Node* n : en) v.push_back(m->eval(n)); tup.push_back(m); val.push_back(v); if (!en.empty()) { er = g_solver.enumerate(s->pc->full, en, LIM, tup, val); } else er = 1; if (er < 0) { tup.clear(); val.clear(); } }
      if (er < 0) for (;;) {
        std::vector<u64> v; Node* diff = N_F; for (Node* n : en) { u64 x = m->eval(n); v.push_back(x); diff = mkOr(diff, mkNot(mkEq(n, nodeConst(n->w, x)))); }
        tup.push_back(m); val.push_back(v); rest = mkAnd(rest, diff);
        if (rest == N_F || tup.size() > LIM) break;
        if (!check(s, rest, &m)) break; }
      if (tup.size() > LIM) { keep = true; nkept++; if (getenv("BSX_RP")) { std::map<size_t, std::set<u64>> dv; for (auto& t : val) for (size_t i = 0; i < t.size(); i++) dv[i].insert(t[i]); fprintf(stderr, "too many tuples (%zu nodes):", en.size()); for (auto& d : dv) fprintf(stderr, " %zu", d.second.size()); fprintf(stderr, "\n"); } }
      ntuples += tup.size();
      static size_t dbgmax = 0; if (getenv("BSX_RPD") && tup.size() > dbgmax + dbgmax / 2) { dbgmax = tup.size(); std::unordered_map<Node*, size_t> ix; for (size_t i = 0; i < en.size(); i++) ix[en[i]] = i; fprintf(stderr, "== level %d: %zu tuples; %s\n", level, tup.size(), blockedDesc(s).c_str());
        auto show = [&](Node* n, const std::string& w) { auto it = ix.find(n); if (it == ix.end()) return; std::set<u64> d; for (auto& t : val) d.insert(t[it->second]); fprintf(stderr, "  %s: %zu values:", w.c_str(), d.size()); int k = 0; for (u64 x : d) if (k++ < 8) fprintf(stderr, " %lld", (long long)x); fprintf(stderr, "\n"); };
        auto sl = [&](Slot& x, const std::string& w) { if (x.dead || !x.o) return; if (x.alive) show(x.alive, w + " alive"); for (auto& y : x.o->sy) show(y.v, w + "+" + std::to_string(y.off)); if (x.acc) for (auto& a : x.acc->v) { show(a.pres, w + " acc" + std::to_string(a.off)); for (auto& z : a.sym) show(z.second, w + " acc" + std::to_string(a.off) + " t" + std::to_string(a.tid) + " bit" + std::to_string(z.first) + " @" + instLoc(&g_funcs[a.fn]->ins[a.ip])); } };
        for (size_t i = 0; i < s->glob.size(); i++) sl(s->glob[i], "glob " + (i < g_mobjs.size() ? g_mobjs[i].name : std::to_string(i))); for (size_t t = 0; t < s->heap.size(); t++) for (size_t i = 0; i < s->heap[t].size(); i++) sl(s->heap[t][i], "heap" + std::to_string(t) + "." + std::to_string(i) + "(" + std::to_string(s->heap[t][i].o ? s->heap[t][i].o->size : 0) + ")"); for (size_t t = 0; t < s->stack.size(); t++) for (size_t i = 0; i < s->stack[t].size(); i++) sl(s->stack[t][i], "stack" + std::to_string(t) + "." + std::to_string(i) + "(" + std::to_string(s->stack[t][i].o ? s->stack[t][i].o->size : 0) + ")");
        for (size_t t = 0; t < s->th.size(); t++) for (auto& f : s->th[t].st) for (size_t i = 0; i < f->r.size(); i++) if (f->r[i].n) show(f->r[i].n, "reg t" + std::to_string(t) + " " + f->f->name.substr(0, 40) + " r" + std::to_string(i)); }
    }
    if (keep) { gs.push_back({s, {}, {}, {}, true}); continue; }
    // group tuples
    for (size_t i = 0; i < tup.size(); i += 64) { size_t e = std::min(tup.size(), i + 64); Grp g{e == tup.size() ? s : new State(*s), {}, {}, en, false}; for (size_t j = i; j < e; j++) { g.tup.push_back(tup[j]); g.val.push_back(val[j]); } gs.push_back(std::move(g)); }
  }
  size_t N = gs.size(); tables[ti].m.resize(N);
  { snprintf(nb, 40, "l_%d_p%d", level, g_pass); tables[ti].used = nodeVar(nb, 1); for (size_t n = N ? N - 1 : 0, d = 0; d == 0 || n; n >>= 6, d++) { snprintf(nb, 40, "p_%d_%zu_p%d", level, d, g_pass); tables[ti].dig.push_back(nodeVar(nb, 6)); } snprintf(nb, 40, "q_%d_p%d", level, g_pass); tables[ti].q = nodeVar(nb, 6); }
  auto& T = tables[ti]; u32 base = T.used->k; front.clear();
  for (size_t i = 0; i < N; i++) { Grp& g = gs[i]; State* s = g.s; front.push_back(s);
    auto push = [&](Node* c) { if (c == N_T) return; s->pc = new PC{c, s->pc, s->pc->depth + 1, mkAnd(s->pc->full, c)}; };
    auto h = std::make_shared<Model>();
    if (g.keep) { h->base = s->hint; h->from = base; }
    else {
      s->pc = &g_rootpc; s->facts.clear();
      // residual inputs keep their values of the first tuple's model
      for (auto& m : g.tup) { std::unordered_map<u32, u64> o; flat(m, ~0u, o); T.m[i].emplace_back(o.begin(), o.end()); }
      h->vals.clear(); }
    h->vals[T.used->k] = 1; for (size_t d = 0; d < T.dig.size(); d++) { u64 dg = i >> (6 * d) & 63; h->vals[T.dig[d]->k] = dg; if (N > 1) push(nodeInset(T.dig[d], 1ull << dg)); }
    push(T.used);
    size_t n = g.tup.size(); if (!g.keep) {
      h->vals[T.q->k] = 0; if (n > 1) push(nodeInset(T.q, n == 64 ? ~0ull : (1ull << n) - 1));
      u64 full = n == 64 ? ~0ull : (1ull << n) - 1; std::unordered_map<Node*, Node*> mp;
      for (size_t j = 0; j < g.nodes.size(); j++) { Node* n0 = g.nodes[j]; std::map<u64, u64> ms; for (size_t k = 0; k < n; k++) ms[g.val[k][j]] |= 1ull << k; Node* r = nullptr; size_t left = ms.size(); u64 done = 0;
        // the last value covers the unused selector values too
        std::vector<std::pair<u64, u64>> vv(ms.begin(), ms.end()); r = nodeConst(n0->w, vv.back().first); if (n0->w == 1) { r = N_F; u64 m1 = 0; if (ms.count(1)) m1 = ms[1]; if (m1 == full) m1 = ~0ull; r = nodeInset(T.q, m1); } else for (size_t k = vv.size() - 1; k-- > 0;) r = mkIte(nodeInset(T.q, vv[k].second), nodeConst(n0->w, vv[k].first), r); (void)left; (void)done;
        mp[n0] = r; }
      eachNode(s, true, [&](Node*& x) { auto it = mp.find(x); if (it != mp.end()) x = it->second; }); }
    s->hint = h; }
  qclear(); rptime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
State* Engine::initial(DFunc* entry, const std::vector<DFunc*>& ctors) {
  State* s = new State; s->pc = &g_rootpc; s->hint = std::make_shared<Model>();
  if (conc) { s->hint = std::make_shared<Model>(*conc); s->hint->memo.clear(); }
  syncIdx.clear();
  s->th.emplace_back(); s->heap.emplace_back(); s->stack.emplace_back();
  cslots.clear();
  for (auto& v : {&g_cobjs, &g_mobjs}) for (auto& o : *v) { Slot sl; sl.o = Ref<Obj>(new Obj(o.size, 1)); sl.o->by = o.by; sl.o->wd = o.wd; (v == &g_cobjs ? cslots : s->glob).push_back(sl); }
  ev.assign(MAXT, 0);
  bool nr = g_opt.norace; g_opt.norace = true;
  for (DFunc* f : ctors) { level = -1; pushCall(s, 0, f, {}, nullptr); out.clear(); work.push_back(s); State* x = work.back(); work.pop_back(); exec(x, 0, false);
    if (out.size() != 1 || !work.empty() || out[0]->th[0].status != 1) fatal("global constructor " + f->name + " did not run to completion"); s = out[0]; out.clear(); s->th[0].status = 0; s->steps = 0; s->th[0].st.clear(); }
  g_opt.norace = nr; for (auto& sl : s->glob) sl.acc = Ref<AccInfo>();
  level = 0; pushCall(s, 0, entry, {}, nullptr);
  return s;
}
std::string Engine::blockedDesc(State* s) {
  std::string r;
  for (size_t t = 0; t < s->th.size(); t++) { if (s->th[t].status == 1) continue; std::string d; int k = 0;
    for (size_t i = s->th[t].st.size(); i-- > 0 && k < 6;) { Frame* f = s->th[t].st[i].p; std::string n = f->f->name; if (n.size() > 70) n = n.substr(0, 70); d += (d.empty() ? "" : " < ") + n; k++; if (f->f->name.rfind("vh_", 0) == 0) break; }
    r += "t" + std::to_string(t) + "[" + d + "] "; }
  return r;
}
struct KeyHash { size_t operator()(const std::vector<u32>& k) const { u64 h = 1469598103934665603ULL; for (u32 x : k) { h ^= x; h *= 1099511628211ULL; } return h; } };
static Node* schedVar(int level) { char b[32]; snprintf(b, 32, "s_%d_p%d", level, g_pass); return nodeVar(b, 6); }
void Engine::explore(DFunc* entry, const std::vector<DFunc*>& ctors, int maxLevel) {
  auto t0 = std::chrono::steady_clock::now();
  std::vector<State*> front; front.push_back(initial(entry, ctors));
  for (level = 1; level <= maxLevel && !front.empty(); level++) {
    if (level > levels) levels = level;
    svar = schedVar(level); u32 sv = (u32)svar->k;
    std::unordered_map<std::vector<u32>, std::vector<State*>, KeyHash> next; std::vector<std::vector<u32>> order;
    maxfront = std::max<u64>(maxfront, front.size());
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (g_opt.verbose && !conc) fprintf(stderr, "level %d: %zu states, %llu queries %.1fs solver, %.1fs total, nodes %llu merges %llu inst %llu hinted %llu tuples %llu rp %.1fs\n", level, front.size(), (unsigned long long)g_solver.queries, g_solver.secs, el, (unsigned long long)g_nodes, (unsigned long long)nmerge, (unsigned long long)ninst, (unsigned long long)g_solver.hinted, (unsigned long long)ntuples, rptime);
    if (!viols.empty() && !g_opt.nostop && !conc) { if (firstViol < 0) firstViol = el; if (el > firstViol + 15) { for (State* s : front) kill(s); front.clear(); break; } }
    if (el > g_opt.timeLimit) { truncated += front.size(); for (State* s : front) kill(s); front.clear(); fprintf(stderr, "time limit\n"); break; }
    for (size_t fi = 0; fi < front.size(); fi++) { State* s = front[fi];
      nstates++;
      int nt = s->th.size(); bool alldone = true; for (auto& th : s->th) if (th.status != 1 && !th.daemon) alldone = false;
      if (s->th[0].status == 1 && alldone) { nfinal++; samples.push_back({s->hint, level}); if (samples.size() > 64) samples.erase(samples.begin() + 16 + (nfinal % 40)); kill(s); continue; }
      std::vector<std::array<Node*, 3>> en(nt); Node* any = N_F;
      for (int t = 0; t < nt; t++) { Node *a, *b; Node* e = enabled(s, t, a, b); en[t] = {e, a, b}; if (!s->th[t].daemon || 1) any = mkOr(any, mkOr(e, a)); }
      if (conc && stopConc) { kill(s); break; }
      if (any != N_T) { ModelP m; Node* dead = mkNot(any);
        if (check(s, dead, &m)) {
          std::string bd = blockedDesc(s); 
          // all remaining threads daemons waiting is a normal end
          report(s, "deadlock: " + bd, bd, m); if (conc) { kill(s); break; } } }
      int ct = -1, cm = 0;
      if (conc) { u64 v = conc->var(sv); ct = v >> 2; cm = v & 3; 
        auto okc = [&](int t, int m) { return t < nt && s->th[t].status != 1 && m < 3 && en[t][m] != N_F && s->hint->eval(en[t][m]); };
        if (!okc(ct, cm)) { ct = -1; for (int t = 0; t < nt && ct < 0; t++) for (int m = 0; m < 2; m++) if (okc(t, m)) { ct = t; cm = m; break; } if (ct < 0) { kill(s); break; } } }
      int only = -1; for (int t = nt; t-- > 0;) if (s->th[t].fresh && s->th[t].status != 1) only = t; // the first step of a thread is local to it: it can be taken at once
      if (conc && only >= 0) { ct = only; cm = 0; }
      for (int t = 0; t < nt; t++) for (int m = 0; m < 3; m++) {
        if (only >= 0 && (t != only || m)) continue;
        if (conc && (t != ct || m != cm)) continue;
        Node* e = en[t][m]; if (e == N_F || s->th[t].status == 1) continue;
        if (g_opt.ctx >= 0 && s->last >= 0 && s->last != t && (int)s->nctx >= g_opt.ctx) { // pre-emption bound: only a blocked thread may be left for free
          Node *a, *b; Node* le = en[s->last][0]; (void)a; (void)b; if (s->th[s->last].status != 1 && le != N_F) { ModelP mm; Node* nb = mkNot(le); if (le == N_T || !check(s, mkAnd(nb, e), &mm)) { truncated += conc ? 0 : 1; continue; } e = mkAnd(e, nb); } }
        ModelP hm; bool ok = true;
        if (!conc) { ok = check(s, e, &hm); if (!ok) continue; }
        State* c = new State(*s); ntrans++;
        Node* in = nodeInset(svar, 1ull << (t * 4 + m));
        if (!conc) { addc(c, mkAnd(in, e)); auto mm = std::make_shared<Model>(); mm->base = hm; mm->from = sv; mm->vals[sv] = t * 4 + m; c->hint = mm; }
        else trace.push_back({'S', t, (u64)m, 0});
        if (g_opt.ctx >= 0) { if (s->last >= 0 && s->last != t && s->th[s->last].status != 1) { bool forced = en[s->last][0] == N_F; if (!forced) c->nctx++; } c->last = t; }
        size_t ti = trace.size() - 1;
        out.clear(); run(c, t, m);
        if (conc && !trace.empty()) { trace[ti].b = stopConc || (!out.empty() && out[0]->th[t].status == 1) ? ~0ull : ev[t]; }
        for (State* o : out) {
          prune(o);
          std::vector<u32> k; key(o, k);
          auto it = next.find(k);
          if (it == next.end()) { next[k].push_back(o); order.push_back(k); continue; }
          bool mg = false; if (!g_opt.nomerge) for (State* q : it->second) if (merge(q, o)) { mg = true; break; }
          if (mg) delete o; else it->second.push_back(o);
        }
        out.clear();
        if (stopConc) break;
      }
      kill(s);
      if (stopConc) break;
    }
    if (stopConc) { front.clear(); return; }
    front.clear();
    for (auto& k : order) for (State* s : next[k]) front.push_back(s);
    if (!conc && !g_opt.norp) reparam(front);
  }
  if (!front.empty()) { truncated += front.size(); for (State* s : front) kill(s); }
}
