// A small CDCL solver over the expression DAG: finds models and prunes infeasible paths quickly.
// Its "unsatisfiable" answers are only claims; Z3 discharges all of them before a result is reported.
#pragma once
#include "expr.h"
typedef int Lit; // 2*var+sign
static inline Lit lneg(Lit l) { return l ^ 1; } static inline int lvar(Lit l) { return l >> 1; }
struct Sat {
  struct W { u32 c; Lit b; };
  std::vector<int> ar; // clause arena: [size | learnt<<30, act(float bits), lits...]
  std::vector<u32> learnts; std::vector<std::vector<W>> ws; std::vector<signed char> val, phase; std::vector<int> lev; std::vector<u32> reason; std::vector<double> act; std::vector<int> heap, hpos; std::vector<char> seen; std::vector<Lit> trail; std::vector<int> tlim; size_t qh = 0; double inc = 1; bool ok = true; u64 conflicts = 0, props = 0, ncl = 0;
  Lit T;
  Sat() { T = 2 * newVar(); addClause({T}); }
  int newVar() { int v = val.size(); val.push_back(0); phase.push_back(0); lev.push_back(0); reason.push_back(0); act.push_back(0); hpos.push_back(-1); seen.push_back(0); ws.emplace_back(); ws.emplace_back(); if (ar.empty()) ar.push_back(0); return v; }
  int value(Lit l) const { int v = val[l >> 1]; return l & 1 ? -v : v; }
  void assign(Lit l, u32 r) { int v = l >> 1; val[v] = l & 1 ? -1 : 1; lev[v] = tlim.size(); reason[v] = r; trail.push_back(l); }
  void cancel(int L) { if ((int)tlim.size() <= L) return; for (int i = trail.size() - 1; i >= tlim[L]; i--) { int v = trail[i] >> 1; phase[v] = val[v]; val[v] = 0; if (hpos[v] == -2) { hins(v); } } trail.resize(tlim[L]); tlim.resize(L); qh = trail.size(); }
  // heap of decision candidates; hpos: -1 not a candidate, -2 candidate outside the heap
  bool lt(int a, int b) { return act[a] > act[b]; }
  void up(int i) { int x = heap[i]; while (i) { int p = (i - 1) / 2; if (!lt(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
  void down(int i) { int x = heap[i], n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(int v) { if (hpos[v] >= 0) return; heap.push_back(v); hpos[v] = heap.size() - 1; up(heap.size() - 1); }
  int hpop() { int x = heap[0], y = heap.back(); heap.pop_back(); hpos[x] = -2; if (!heap.empty()) { heap[0] = y; hpos[y] = 0; down(0); } return x; }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  bool addClause(std::vector<Lit> c) {
    if (!ok) return false; if (!tlim.empty()) cancel(0);
    std::sort(c.begin(), c.end()); std::vector<Lit> d; Lit pv = -1;
    for (Lit l : c) { if (value(l) > 0 || l == lneg(pv)) return true; if (value(l) < 0 || l == pv) continue; d.push_back(l); pv = l; }
    if (d.empty()) return ok = false;
    if (d.size() == 1) { assign(d[0], 0); return ok = propagate() == 0; }
    attach(d, false); return true; }
  u32 attach(const std::vector<Lit>& d, bool learnt) { u32 c = ar.size(); ar.push_back((int)d.size() | (learnt ? 1 << 30 : 0)); ar.push_back(0); for (Lit l : d) ar.push_back(l); ws[lneg(d[0])].push_back({c, d[1]}); ws[lneg(d[1])].push_back({c, d[0]}); ncl++; if (learnt) learnts.push_back(c); return c; }
  u32 propagate() {
    while (qh < trail.size()) { Lit p = trail[qh++]; auto& w = ws[p]; size_t i = 0, j = 0, n = w.size(); props++;
      for (; i < n; i++) { W x = w[i]; if (value(x.b) > 0) { w[j++] = x; continue; }
        int* c = &ar[x.c]; int sz = c[0] & 0x3fffffff; if (!sz) continue; Lit* l = c + 2; Lit np = lneg(p); if (l[0] == np) { l[0] = l[1]; l[1] = np; }
        if (value(l[0]) > 0) { w[j++] = {x.c, l[0]}; continue; }
        bool f = false; for (int k = 2; k < sz; k++) if (value(l[k]) >= 0) { l[1] = l[k]; l[k] = np; ws[lneg(l[1])].push_back({x.c, l[0]}); f = true; break; }
        if (f) continue;
        w[j++] = {x.c, l[0]};
        if (value(l[0]) < 0) { for (i++; i < n; i++) w[j++] = w[i]; w.resize(j); qh = trail.size(); return x.c; }
        assign(l[0], x.c); }
      w.resize(j); }
    return 0; }
  std::vector<Lit> lc; std::vector<int> cand;
  int analyze(u32 cf) {
    lc.clear(); lc.push_back(0); int cnt = 0, idx = trail.size() - 1; Lit p = -1; std::vector<int> clr; int L = tlim.size();
    do { int* c = &ar[cf]; int sz = c[0] & 0x3fffffff; for (int k = 0; k < sz; k++) { Lit q = c[2 + k]; if (q == p) continue; int v = q >> 1; if (!seen[v] && lev[v] > 0) { seen[v] = 1; clr.push_back(v); bump(v); if (hpos[v] == -1) hpos[v] = -2; if (lev[v] >= L) cnt++; else lc.push_back(q); } }
      while (!seen[trail[idx] >> 1]) idx--; p = trail[idx--]; cf = reason[p >> 1]; cnt--; } while (cnt > 0);
    lc[0] = lneg(p);
    size_t j = 1; for (size_t i = 1; i < lc.size(); i++) { int v = lc[i] >> 1; bool red = false; if (reason[v]) { red = true; int* c = &ar[reason[v]]; int sz = c[0] & 0x3fffffff; for (int k = 0; k < sz; k++) { int u = c[2 + k] >> 1; if (u != v && !seen[u] && lev[u] > 0) { red = false; break; } } } if (!red) lc[j++] = lc[i]; }
    lc.resize(j); for (int v : clr) seen[v] = 0;
    int bl = 0; if (lc.size() > 1) { size_t m = 1; for (size_t i = 2; i < lc.size(); i++) if (lev[lc[i] >> 1] > lev[lc[m] >> 1]) m = i; std::swap(lc[1], lc[m]); bl = lev[lc[1] >> 1]; }
    inc *= 1.0526; return bl; }
  void reduce() { // drop long learnt clauses that are not reasons
    std::vector<u32> keep; size_t n = learnts.size(); for (size_t i = 0; i < n; i++) { u32 c = learnts[i]; int sz = ar[c] & 0x3fffffff; bool lock = value(ar[c + 2]) > 0 && reason[ar[c + 2] >> 1] == c; if (i < n / 2 && sz > 3 && !lock) ar[c] = 1 << 30; else keep.push_back(c); } learnts.swap(keep);
    for (auto& w : ws) { size_t j = 0; for (auto& x : w) if (ar[x.c] & 0x3fffffff) w[j++] = x; w.resize(j); } }
  // 1 sat, 0 unsat, -1 gave up
  // exclude the current solution (all literals of d are false) and keep as much of the assignment as possible
  void blockNow(std::vector<Lit> d) {
    size_t j = 0; for (size_t i = 0; i < d.size(); i++) if (lev[d[i] >> 1] > 0) d[j++] = d[i]; d.resize(j);
    if (d.empty()) { ok = false; return; }
    if (d.size() == 1) { cancel(0); assign(d[0], 0); return; }
    for (int k = 0; k < 2; k++) { size_t m = k; for (size_t i = k + 1; i < d.size(); i++) if (lev[d[i] >> 1] > lev[d[m] >> 1]) m = i; std::swap(d[k], d[m]); }
    int l0 = lev[d[0] >> 1], l1 = lev[d[1] >> 1]; u32 c = attach(d, false);
    if (l0 == l1) cancel(l0 - 1); else { cancel(l1); assign(d[0], c); } }
  int solve(const std::vector<Lit>& as, const std::vector<int>& inputs, u64 limit, bool resume = false) {
    if (!ok) return 0; if (resume) goto go; cancel(0);
    for (int v : heap) hpos[v] = -1; heap.clear(); for (size_t v = 0; v < 0; v++); 
    for (int v : cand) hpos[v] = -1; cand = inputs;
    for (int v : inputs) if (!val[v]) hins(v); else hpos[v] = -2;
  go:
    u64 start, rst, rlim; start = conflicts; rst = 0; rlim = 100;
    for (;;) {
      u32 cf = propagate();
      if (cf) { conflicts++; rst++; if (tlim.empty()) { ok = false; return 0; }
        if (conflicts - start > limit) { cancel(0); return -1; }
        int bl = analyze(cf); 
        for (Lit l : lc) cand.push_back(l >> 1);
        cancel(bl); if (lc.size() == 1) { cancel(0); assign(lc[0], 0); } else { u32 c = attach(lc, true); assign(lc[0], c); }
        continue; }
      if (rst > rlim) { rst = 0; rlim += rlim / 10; cancel(0); if (learnts.size() > 4000 + ncl / 4) reduce(); continue; }
      if (tlim.size() < as.size()) { Lit a = as[tlim.size()]; int x = value(a); if (x < 0) { cancel(0); return 0; } tlim.push_back(trail.size()); if (!x) assign(a, 0); continue; }
      int v = -1; while (!heap.empty()) { int u = hpop(); if (!val[u]) { v = u; break; } }
      if (v < 0) return 1;
      tlim.push_back(trail.size()); assign(2 * v + (phase[v] > 0 ? 0 : 1), 0);
    } }
};
