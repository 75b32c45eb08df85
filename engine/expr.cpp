#include "expr.h"
#include <chrono>
#include <set>
#include <map>
#include <deque>
#include "sat.h"
std::vector<VarInfo> g_vars; u64 g_nodes = 0;
static std::unordered_map<std::string, u32> varIdx;
static std::vector<Node*> varNode;
Solver g_solver;

struct Arena { char* p = nullptr; size_t left = 0; void* get(size_t n) { if (left < n) { left = 1 << 20; p = (char*)malloc(left); } void* r = p; p += n; left -= n; return r; } } arena;

static inline u64 mixh(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
// open-addressing table
static std::vector<Node*> tab(1 << 16, nullptr);
static size_t tabn = 0;
static u64 hashN(u8 op, u8 w, Node* a, Node* b, Node* c, u64 k) {
  u64 h = op * 131 + w;
  h = mixh(h * 0x9E3779B97F4A7C15ULL + (a ? a->id : 0x7fffffff));
  h = mixh(h * 0x9E3779B97F4A7C15ULL + (b ? b->id : 0x7ffffffe));
  h = mixh(h * 0x9E3779B97F4A7C15ULL + (c ? c->id : 0x7ffffffd));
  return mixh(h + k);
}
static std::map<std::vector<u64>, std::vector<u64>*> vsPool;
static const std::vector<u64>* internVs(std::vector<u64>&& v) {
  auto it = vsPool.find(v);
  if (it != vsPool.end()) return it->second;
  auto* p = new std::vector<u64>(v); vsPool.emplace(std::move(v), p); return p;
}
static const size_t MAXVS = 64;
static Node* mk(u8 op, u8 w, Node* a, Node* b, Node* c, u64 k) {
  u64 h = hashN(op, w, a, b, c, k);
  size_t m = tab.size() - 1, i = h & m;
  while (tab[i]) { Node* n = tab[i]; if (n->op == op && n->w == w && n->a == a && n->b == b && n->c == c && n->k == k) return n; i = (i + 1) & m; }
  Node* n = (Node*)arena.get(sizeof(Node));
  n->op = op; n->w = w; n->a = a; n->b = b; n->c = c; n->k = k; n->id = (u32)g_nodes++; n->z = nullptr; n->zepoch = 0; n->vs = nullptr; n->sl = -1; n->sepoch = 0; n->stamp = 0;
  n->hard = op == O_MUL || op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM || op == O_SMULOVF || op == O_UMULOVF;
  for (Node* x : {a, b, c}) if (x && x->hard) n->hard = true;
 
  n->maxvar = op == O_VAR ? (u32)k + 1 : 0;
  for (Node* x : {a, b, c}) if (x && x->maxvar > n->maxvar) n->maxvar = x->maxvar;
  n->cl = false;
  if (op == O_CONST) { n->cl = true; n->vs = internVs({k}); }
  else if (op == O_ITE && b->cl && c->cl) {
    if (b->vs == c->vs) { n->cl = true; n->vs = b->vs; }
    else { std::vector<u64> r; std::set_union(b->vs->begin(), b->vs->end(), c->vs->begin(), c->vs->end(), std::back_inserter(r));
      if (r.size() <= MAXVS) { n->cl = true; n->vs = internVs(std::move(r)); } }
  }
  tab[i] = n; tabn++;
  if (tabn * 2 > tab.size()) {
    std::vector<Node*> nt(tab.size() * 2, nullptr); size_t mm = nt.size() - 1;
    for (Node* x : tab) if (x) { size_t j = hashN(x->op, x->w, x->a, x->b, x->c, x->k) & mm; while (nt[j]) j = (j + 1) & mm; nt[j] = x; }
    tab.swap(nt);
  }
  return n;
}
Node* nodeConst(u8 w, u64 v) { return mk(O_CONST, w, 0, 0, 0, v & maskw(w)); }
Node *N_T = nodeConst(1, 1), *N_F = nodeConst(1, 0);
Node* nodeVar(const std::string& name, u8 w) {
  auto it = varIdx.find(name);
  if (it != varIdx.end()) return varNode[it->second];
  u32 i = g_vars.size(); g_vars.push_back({name, w}); varIdx[name] = i;
  Node* n = mk(O_VAR, w, 0, 0, 0, i); varNode.push_back(n); return n;
}
Node* nodeInset(Node* v, u64 m) {
  if (!m) return N_F;
  u64 full = v->w >= 6 ? ~0ull : ((1ull << (1u << v->w)) - 1);
  if ((m & full) == full) return N_T;
  return mk(O_INSET, 1, v, 0, 0, m & full);
}
u64 foldBin(u8 op, u8 w, u64 a, u64 b) {
  u64 M = maskw(w);
  switch (op) {
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_ADD: return (a + b) & M; case O_SUB: return (a - b) & M; case O_MUL: return (a * b) & M;
  case O_UDIV: return b ? a / b : M; case O_UREM: return b ? a % b : a;
  case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (u64)x) & M; return (u64)(x / y) & M; }
  case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
  case O_SHL: return b >= w ? 0 : (a << b) & M; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? 63 : b)) & M; }
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
  case O_SMULOVF: { __int128 r = (__int128)sx(a, w) * sx(b, w); i64 lo = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), hi = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; return r < lo || r > hi; }
  case O_UMULOVF: { unsigned __int128 r = (unsigned __int128)a * b; return r > M; }
  }
  abort();
}
// memo for distributed operations: (kind, node, const/extra) -> node
struct DKey { u64 a; Node* n; u64 k; bool operator==(const DKey& o) const { return a == o.a && n == o.n && k == o.k; } };
struct DHash { size_t operator()(const DKey& d) const { return mixh(mixh(d.a) ^ ((u64)d.n->id * 0x9E3779B97F4A7C15ULL) ^ mixh(d.k)); } };
static std::unordered_map<DKey, Node*, DHash> dmemo;

static bool cmpop(u8 op) { return op >= O_EQ && op <= O_SLE; }
// apply binary op with constant on one side through an ite tree
static Node* distC(u8 op, Node* t, u64 k, bool constLeft) {
  u8 rw = (cmpop(op) || op == O_SMULOVF || op == O_UMULOVF) ? 1 : t->w;
  if (isC(t)) return nodeConst(rw, constLeft ? foldBin(op, t->w, k, t->k) : foldBin(op, t->w, t->k, k));
  if (rw == 1) { // decide from the value set
    bool any0 = false, any1 = false;
    for (u64 v : *t->vs) (((constLeft ? foldBin(op, t->w, k, v) : foldBin(op, t->w, v, k)) & 1) ? any1 : any0) = true;
    if (!any0) return N_T; if (!any1) return N_F;
  }
  DKey key{(u64)op | (constLeft ? 256 : 0), t, k};
  auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
  Node* r = mkIte(t->a, distC(op, t->b, k, constLeft), distC(op, t->c, k, constLeft));
  dmemo[key] = r; return r;
}
static Node* distU(u8 op, Node* t, u64 k, u8 w) { // extract/zext/sext over ite tree
  if (isC(t)) { if (op == O_EXTRACT) return nodeConst(w, t->k >> k); if (op == O_ZEXT) return nodeConst(w, t->k); return nodeConst(w, (u64)sx(t->k, t->w)); }
  DKey key{(u64)op | ((u64)w << 10), t, k};
  auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
  Node* r = mkIte(t->a, distU(op, t->b, k, w), distU(op, t->c, k, w));
  dmemo[key] = r; return r;
}
Node* mkNot(Node* a) {
  if (isC(a)) return nodeConst(a->w, ~a->k);
  if (a->op == O_NOT) return a->a;
  if (a->w == 1) {
    if (a->op == O_INSET) return nodeInset(a->a, ~a->k);
    if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a); if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
    if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a); if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a);
  }
  return mk(O_NOT, a->w, a, 0, 0, 0);
}
static bool compl_(Node* a, Node* b) {
  if (a->op == O_NOT) return a->a == b; if (b->op == O_NOT) return b->a == a;
  if (a->op == O_INSET && b->op == O_INSET && a->a == b->a) { u64 full = a->a->w >= 6 ? ~0ull : ((1ull << (1u << a->a->w)) - 1); return (a->k ^ b->k) == full; }
  if (a->w == 1 && (a->op == O_ULT && b->op == O_ULE || a->op == O_ULE && b->op == O_ULT || a->op == O_SLT && b->op == O_SLE || a->op == O_SLE && b->op == O_SLT)) return a->a == b->b && a->b == b->a;
  return false;
}
Node* mkAnd(Node* a, Node* b) {
  if (a == b) return a;
  if (isC(a)) return a->k ? b : N_F; if (isC(b)) return b->k ? a : N_F;
  if (a->op == O_INSET && b->op == O_INSET && a->a == b->a) return nodeInset(a->a, a->k & b->k);
  if (compl_(a, b)) return N_F;
  for (int sw = 0; sw < 2; sw++) { Node* x = sw ? b : a; Node* y = sw ? a : b;
    if (y->op == O_AND) { if (y->a == x || y->b == x) return y; if (compl_(x, y->a) || compl_(x, y->b)) return N_F;
      if (x->op == O_INSET) { if (y->a->op == O_INSET && y->a->a == x->a) return mkAnd(mkAnd(x, y->a), y->b); if (y->b->op == O_INSET && y->b->a == x->a) return mkAnd(mkAnd(x, y->b), y->a); } }
    if (y->op == O_OR) { if (y->a == x || y->b == x) return x; if (compl_(x, y->a)) return mkAnd(x, y->b); if (compl_(x, y->b)) return mkAnd(x, y->a); }
    if (y->op == O_NOT && y->a->op == O_AND) { if (y->a->a == x) return mkAnd(x, mkNot(y->a->b)); if (y->a->b == x) return mkAnd(x, mkNot(y->a->a)); if (compl_(x, y->a->a) || compl_(x, y->a->b)) return x; }
    if (y->op == O_NOT && y->a->op == O_OR) { if (y->a->a == x || y->a->b == x) return N_F; }
    if (y->op == O_ITE) { if (y->a == x) return mkAnd(x, y->b); if (compl_(x, y->a)) return mkAnd(x, y->c); }
  }
  if (a->id > b->id) std::swap(a, b);
  return mk(O_AND, 1, a, b, 0, 0);
}
Node* mkOr(Node* a, Node* b) {
  if (a == b) return a;
  if (isC(a)) return a->k ? N_T : b; if (isC(b)) return b->k ? N_T : a;
  if (a->op == O_INSET && b->op == O_INSET && a->a == b->a) return nodeInset(a->a, a->k | b->k);
  if (compl_(a, b)) return N_T;
  for (int sw = 0; sw < 2; sw++) { Node* x = sw ? b : a; Node* y = sw ? a : b;
    if (y->op == O_OR) { if (y->a == x || y->b == x) return y; if (compl_(x, y->a) || compl_(x, y->b)) return N_T;
      if (x->op == O_INSET) { if (y->a->op == O_INSET && y->a->a == x->a) return mkOr(mkOr(x, y->a), y->b); if (y->b->op == O_INSET && y->b->a == x->a) return mkOr(mkOr(x, y->b), y->a); } }
    if (y->op == O_AND) { if (y->a == x || y->b == x) return x; if (compl_(x, y->a)) return mkOr(x, y->b); if (compl_(x, y->b)) return mkOr(x, y->a); }
    if (y->op == O_NOT && y->a->op == O_AND) { if (y->a->a == x || y->a->b == x) return N_T; }
    if (y->op == O_ITE) { if (y->a == x) return mkOr(x, y->c); if (compl_(x, y->a)) return mkOr(x, y->b); }
  }
  if (a->op == O_AND && b->op == O_AND) { // factor
    if (a->a == b->a) return mkAnd(a->a, mkOr(a->b, b->b)); if (a->b == b->b) return mkAnd(a->b, mkOr(a->a, b->a));
    if (a->a == b->b) return mkAnd(a->a, mkOr(a->b, b->a)); if (a->b == b->a) return mkAnd(a->b, mkOr(a->a, b->b));
  }
  if (a->id > b->id) std::swap(a, b);
  return mk(O_OR, 1, a, b, 0, 0);
}
Node* mkIte(Node* c, Node* a, Node* b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) { Node* t = a; a = b; b = t; c = c->a; }
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a)) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b); if (b == c) return mkAnd(c, a);
    if (compl_(a, b)) return mkEq(c, a);
  }
  if (a->op == O_ITE) { if (a->c == b) return mkIte(mkAnd(c, a->a), a->b, b); if (a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b); }
  if (b->op == O_ITE) { if (b->b == a) return mkIte(mkOr(c, b->a), a, b->c); if (b->c == a) return mkIte(mkOr(c, mkNot(b->a)), a, b->b); }
  return mk(O_ITE, a->w, c, a, b, 0);
}
Node* mkEq(Node* a, Node* b) {
  if (a == b) return N_T;
  if (isC(a) && isC(b)) return a->k == b->k ? N_T : N_F;
  if (isC(a)) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return b->k ? a : mkNot(a); if (compl_(a, b)) return N_F; if (a->op == O_NOT && b->op == O_NOT) return mkEq(a->a, b->a); if (a->id > b->id) std::swap(a, b); return mk(O_EQ, 1, a, b, 0, 0); }
  if (isC(b)) {
    if (a->cl) return distC(O_EQ, a, b->k, false);
    if (a->op == O_ZEXT) { if (b->k >> a->a->w) return N_F; return mkEq(a->a, nodeConst(a->a->w, b->k)); }
    if (a->op == O_SEXT) { if (sx(b->k & maskw(a->a->w), a->a->w) != sx(b->k, a->w)) return N_F; return mkEq(a->a, nodeConst(a->a->w, b->k)); }
    if (a->op == O_ADD && isC(a->b)) return mkEq(a->a, nodeConst(a->w, b->k - a->b->k));
    if (a->op == O_CONCAT) return mkAnd(mkEq(a->a, nodeConst(a->a->w, b->k >> a->b->w)), mkEq(a->b, nodeConst(a->b->w, b->k)));
    if (a->op == O_ITE) { if (isC(a->b) && a->b->k != b->k) return mkAnd(mkNot(a->a), mkEq(a->c, b)); if (isC(a->c) && a->c->k != b->k) return mkAnd(a->a, mkEq(a->b, b));
      if (isC(a->b)) return mkOr(a->a, mkEq(a->c, b)); if (isC(a->c)) return mkOr(mkNot(a->a), mkEq(a->b, b)); }
  } else {
    if (a->cl && b->cl) {
      std::vector<u64> r; std::set_intersection(a->vs->begin(), a->vs->end(), b->vs->begin(), b->vs->end(), std::back_inserter(r));
      if (r.empty()) return N_F;
      if (r.size() <= 4) { Node* x = N_F; for (u64 v : r) x = mkOr(x, mkAnd(distC(O_EQ, a, v, false), distC(O_EQ, b, v, false))); return x; }
    }
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->op == O_ITE && (a->b == b || a->c == b)) { if (a->b == b) return mkOr(a->a, mkEq(a->c, b)); return mkOr(mkNot(a->a), mkEq(a->b, b)); }
    if (b->op == O_ITE && (b->b == a || b->c == a)) return mkEq(b, a);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    // x + c == y  ...
    if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == O_ADD && a->a == b && isC(a->b)) return a->b->k ? N_F : N_T;
    if (b->op == O_ADD && b->a == a && isC(b->b)) return b->b->k ? N_F : N_T;
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk(O_EQ, 1, a, b, 0, 0);
}
Node* mkExtract(Node* a, u8 lo, u8 w) {
  if (lo == 0 && w == a->w) return a;
  if (a->cl) return distU(O_EXTRACT, a, lo, w);
  if (a->op == O_EXTRACT) return mkExtract(a->a, lo + a->k, w);
  if (a->op == O_CONCAT) { u8 bl = a->b->w; if (lo + w <= bl) return mkExtract(a->b, lo, w); if (lo >= bl) return mkExtract(a->a, lo - bl, w); return mkConcat(mkExtract(a->a, 0, lo + w - bl), mkExtract(a->b, lo, bl - lo)); }
  if (a->op == O_ZEXT || a->op == O_SEXT) { u8 sw = a->a->w; if (lo + w <= sw) return mkExtract(a->a, lo, w); if (a->op == O_ZEXT && lo >= sw) return nodeConst(w, 0); if (a->op == O_ZEXT && lo < sw) return mkZext(mkExtract(a->a, lo, sw - lo), w); if (a->op == O_SEXT && lo == 0) return mkSext(a->a, w); }
  if (a->op == O_ITE) { if (isC(a->b) || isC(a->c) || a->b->op == O_CONCAT || a->c->op == O_CONCAT || a->b->op == O_ZEXT || a->c->op == O_ZEXT || a->b->op==O_ITE || a->c->op==O_ITE) {
      DKey key{(u64)O_EXTRACT | ((u64)w << 10) | (1ull << 40), a, lo}; auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
      Node* r = mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); dmemo[key] = r; return r; } }
  if (lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL)) {
    if (isC(a->b) || a->op != O_MUL) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); }
  if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  if (a->op == O_NOT) return mkNot(mkExtract(a->a, lo, w));
  return mk(O_EXTRACT, w, a, 0, 0, lo);
}
Node* mkConcat(Node* hi, Node* lo) {
  u8 w = hi->w + lo->w;
  if (w > 64) abort();
  if (isC(hi) && isC(lo)) return nodeConst(w, (hi->k << lo->w) | lo->k);
  if (isC(hi) && hi->k == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, lo->k, w);
  if (hi->cl && lo->cl && hi->vs->size() * lo->vs->size() <= 16) {
    if (isC(lo)) return mkBin(O_OR, mkBin(O_SHL, mkZext(hi, w), nodeConst(w, lo->w)), nodeConst(w, lo->k));
    if (isC(hi)) return mkBin(O_OR, mkZext(lo, w), nodeConst(w, hi->k << lo->w));
    if (hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  }
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return mk(O_CONCAT, w, hi, lo, 0, 0);
}
Node* mkZext(Node* a, u8 w) {
  if (a->w == w) return a;
  if (a->cl) return distU(O_ZEXT, a, 0, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->w == 1) return mkIte(a, nodeConst(w, 1), nodeConst(w, 0));
  return mk(O_ZEXT, w, a, 0, 0, 0);
}
Node* mkSext(Node* a, u8 w) {
  if (a->w == w) return a;
  if (a->cl) return distU(O_SEXT, a, 0, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->w == 1) return mkIte(a, nodeConst(w, ~0ull), nodeConst(w, 0));
  return mk(O_SEXT, w, a, 0, 0, 0);
}
Node* mkBin(u8 op, Node* a, Node* b) {
  u8 w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, op); abort(); }
  if (op == O_EQ) return mkEq(a, b);
  if (w == 1) {
    if (op == O_AND || op == O_MUL) return mkAnd(a, b); if (op == O_OR) return mkOr(a, b);
    if (op == O_XOR || op == O_ADD || op == O_SUB) return mkNot(mkEq(a, b));
    if (op == O_ULT) return mkAnd(mkNot(a), b); if (op == O_ULE) return mkOr(mkNot(a), b);
    if (op == O_SLT) return mkAnd(a, mkNot(b)); if (op == O_SLE) return mkOr(a, mkNot(b));
  }
  bool cmp = cmpop(op) || op == O_SMULOVF || op == O_UMULOVF; u8 rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return nodeConst(rw, foldBin(op, w, a->k, b->k));
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_SMULOVF || op == O_UMULOVF;
  if (comm && isC(a)) std::swap(a, b);
  if (a->cl && isC(b)) return distC(op, a, b->k, false);
  if (b->cl && isC(a)) return distC(op, b, a->k, true);
  if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
  u64 M = maskw(w);
  if (isC(b)) {
    switch (op) {
    case O_ADD: if (!b->k) return a; if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, nodeConst(w, a->b->k + b->k)); if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, nodeConst(w, a->a->k + b->k), a->b); break;
    case O_SUB: return mkBin(O_ADD, a, nodeConst(w, 0 - b->k));
    case O_MUL: if (b->k == 1) return a; if (!b->k) return b; break;
    case O_AND: if (!b->k) return b; if (b->k == M) return a;
      { u64 m = b->k; if ((m & (m + 1)) == 0) { u8 n = 64 - __builtin_clzll(m); return mkZext(mkExtract(a, 0, n), w); } } break;
    case O_OR: if (!b->k) return a; if (b->k == M) return b; break;
    case O_XOR: if (!b->k) return a; if (b->k == M) return mkNot(a); break;
    case O_SHL: if (!b->k) return a; if (b->k >= w) return nodeConst(w, 0); return mkConcat(mkExtract(a, 0, w - b->k), nodeConst(b->k, 0));
    case O_LSHR: if (!b->k) return a; if (b->k >= w) return nodeConst(w, 0); return mkZext(mkExtract(a, b->k, w - b->k), w);
    case O_ASHR: if (!b->k) return a; if (b->k < w) return mkSext(mkExtract(a, b->k, w - b->k), w); break;
    case O_UDIV: if (b->k == 1) return a; if (b->k && !(b->k & (b->k - 1))) return mkBin(O_LSHR, a, nodeConst(w, __builtin_ctzll(b->k))); break;
    case O_SDIV: if (b->k == 1) return a; break;
    case O_UREM: if (b->k == 1) return nodeConst(w, 0); if (b->k && !(b->k & (b->k - 1))) return mkBin(O_AND, a, nodeConst(w, b->k - 1)); break;
    case O_ULT: if (!b->k) return N_F; if (b->k == 1) return mkEq(a, nodeConst(w, 0)); if (a->op == O_ZEXT) { if (b->k > maskw(a->a->w)) return N_T; return mkBin(O_ULT, a->a, nodeConst(a->a->w, b->k)); } break;
    case O_ULE: if (b->k == M) return N_T; if (!b->k) return mkEq(a, b); if (a->op == O_ZEXT) { if (b->k >= maskw(a->a->w)) return N_T; return mkBin(O_ULE, a->a, nodeConst(a->a->w, b->k)); } break;
    }
  }
  if (isC(a)) {
    if (op == O_ULT && a->k == M) return N_F;
    if (op == O_ULE && a->k == 0) return N_T;
    if (a->k == 0 && (op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
  }
  if (a == b) switch (op) { case O_SUB: case O_XOR: return nodeConst(w, 0); case O_AND: case O_OR: return a; case O_ULE: case O_SLE: return N_T; case O_ULT: case O_SLT: return N_F; }
  if (op == O_SUB && a->op == O_ADD && a->a == b && isC(a->b)) return a->b;
  if (op == O_SUB && b->op == O_ADD && b->a == a && isC(b->b)) return nodeConst(w, 0 - b->b->k);
  if (op == O_SUB && a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b->a), nodeConst(w, a->b->k - b->b->k));
  // (N sdiv c)*c + (N srem c)  ->  N
  if (op == O_ADD) for (int i = 0; i < 2; i++) { Node* x = i ? b : a; Node* y = i ? a : b;
    if (x->op == O_MUL && isC(x->b) && x->a->op == O_SDIV && x->a->b == x->b && y->op == O_SREM && y->a == x->a->a && y->b == x->b) return y->a;
    if (x->op == O_MUL && isC(x->b) && x->a->op == O_UDIV && x->a->b == x->b && y->op == O_UREM && y->a == x->a->a && y->b == x->b) return y->a; }
  if (a->cl && b->cl && a->vs->size() * b->vs->size() <= 12) { // small product: distribute
    DKey key{(u64)op | (1ull << 41), a, b->id}; auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
    Node* r;
    if (a->op == O_ITE) r = mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b)); else r = mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    dmemo[key] = r; return r;
  }
  if (a->cl && b->cl && !cmp && std::min(a->vs->size(), b->vs->size()) <= 16 && a->vs->size() * b->vs->size() <= 512) { // few results: one tree per value of the smaller side
    std::set<u64> rs; for (u64 x : *a->vs) for (u64 y : *b->vs) rs.insert(foldBin(op, w, x, y));
    if (rs.size() <= MAXVS) {
      DKey key{(u64)op | (1ull << 42), a, b->id}; auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
      bool ae = a->vs->size() <= b->vs->size(); Node *e = ae ? a : b, *o = ae ? b : a, *r = nullptr;
      for (u64 v : *e->vs) { Node* x = distC(op, o, v, ae); r = r ? mkIte(distC(O_EQ, e, v, false), x, r) : x; }
      dmemo[key] = r; return r; } }
  if ((op == O_AND || op == O_OR) && (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w)) return mkZext(mkBin(op, a->a, b->a), w);
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  return mk(op, rw, a, b, 0, 0);
}
u64 Model::eval(Node* n) {
  if (n->op == O_CONST) return n->k;
  if (n->maxvar <= from && base) return base->eval(n);
  if (n->op == O_VAR) return var(n->k) & maskw(n->w);
  auto it = memo.find(n); if (it != memo.end()) return it->second;
  u64 r;
  switch (n->op) {
  case O_INSET: r = (n->k >> eval(n->a)) & 1; break;
  case O_NOT: r = ~eval(n->a) & maskw(n->w); break;
  case O_ITE: r = eval(n->a) ? eval(n->b) : eval(n->c); break;
  case O_AND: if (n->w == 1) { r = eval(n->a) && eval(n->b); break; } r = eval(n->a) & eval(n->b); break;
  case O_OR: if (n->w == 1) { r = eval(n->a) || eval(n->b); break; } r = eval(n->a) | eval(n->b); break;
  case O_CONCAT: r = (eval(n->a) << n->b->w) | eval(n->b); break;
  case O_EXTRACT: r = (eval(n->a) >> n->k) & maskw(n->w); break;
  case O_ZEXT: r = eval(n->a); break;
  case O_SEXT: r = (u64)sx(eval(n->a), n->a->w) & maskw(n->w); break;
  default: r = foldBin(n->op, n->a->w, eval(n->a), eval(n->b));
  }
  memo[n] = r; return r;
}
void collectVars(Node* n, std::vector<u32>& out) {
  std::set<Node*> seen; std::vector<Node*> st{n};
  while (!st.empty()) { Node* x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; if (x->op == O_VAR) out.push_back(x->k); st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
}
std::string nodeStr(Node* n, int d) {
  if (!n) return "";
  if (isC(n)) { char b[32]; snprintf(b, 32, n->k > 4096 ? "0x%llx" : "%llu", (unsigned long long)n->k); return b; }
  if (n->op == O_VAR) return g_vars[n->k].name;
  if (d <= 0) return "..";
  static const char* nm[] = {"c","v","in","!","&","|","^","+","-","*","/u","/s","%u","%s","<<",">>u",">>s","==","<u","<=u","<s","<=s","?","++","ext","zx","sx","smo","umo"};
  if (n->op == O_INSET) { char b[32]; snprintf(b, 32, "{%llx}", (unsigned long long)n->k); return nodeStr(n->a) + b; }
  std::string s = std::string("(") + nm[n->op];
  for (Node* x : {n->a, n->b, n->c}) if (x) s += " " + nodeStr(x, d - 1);
  return s + ")";
}
// ---- Z3 ----
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void Solver::reset() {
  if (ctx) { Z3_solver_dec_ref(ctx, s); Z3_del_context(ctx); }
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, zerr);
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, getenv("BSX_LOGIC") ? getenv("BSX_LOGIC") : "QF_FD")); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)timeout_ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  epoch++; defs = 0;
}
static Z3_ast tobv(Solver& S, Node* n, Z3_ast z) { return z; }
Z3_ast Solver::tr(Node* n) { // width-1 nodes are Bool, others BitVec
  if (n->zepoch == epoch) return n->z;
  Z3_ast r = nullptr; Z3_context c = ctx;
  if (n->w == 1) switch (n->op) {
    case O_CONST: r = n->k ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case O_VAR: r = Z3_mk_const(c, Z3_mk_int_symbol(c, n->k), Z3_mk_bool_sort(c)); break;
    case O_INSET: { Z3_ast v = tr(n->a); std::vector<Z3_ast> d; Z3_sort so = Z3_mk_bv_sort(c, n->a->w);
      u64 full = n->a->w >= 6 ? ~0ull : ((1ull << (1u << n->a->w)) - 1); u64 m = n->k & full; bool neg = __builtin_popcountll(m) * 2 > __builtin_popcountll(full); if (neg) m = ~m & full;
      for (int i = 0; i < 64; i++) if (m >> i & 1) d.push_back(Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, i, so)));
      r = d.size() == 1 ? d[0] : Z3_mk_or(c, d.size(), d.data()); if (neg) r = Z3_mk_not(c, r); break; }
    case O_NOT: r = Z3_mk_not(c, tr(n->a)); break;
    case O_AND: { Z3_ast x[2] = {tr(n->a), tr(n->b)}; r = Z3_mk_and(c, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {tr(n->a), tr(n->b)}; r = Z3_mk_or(c, 2, x); break; }
    case O_EQ: r = Z3_mk_eq(c, tr(n->a), tr(n->b)); break;
    case O_ULT: r = Z3_mk_bvult(c, tr(n->a), tr(n->b)); break; case O_ULE: r = Z3_mk_bvule(c, tr(n->a), tr(n->b)); break;
    case O_SLT: r = Z3_mk_bvslt(c, tr(n->a), tr(n->b)); break; case O_SLE: r = Z3_mk_bvsle(c, tr(n->a), tr(n->b)); break;
    case O_ITE: r = Z3_mk_ite(c, tr(n->a), tr(n->b), tr(n->c)); break;
    case O_EXTRACT: r = Z3_mk_eq(c, Z3_mk_extract(c, n->k, n->k, tr(n->a)), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); break;
    case O_SMULOVF: { Z3_ast x = tr(n->a), y = tr(n->b); Z3_ast z[2] = {Z3_mk_bvmul_no_overflow(c, x, y, true), Z3_mk_bvmul_no_underflow(c, x, y)}; r = Z3_mk_not(c, Z3_mk_and(c, 2, z)); break; }
    case O_UMULOVF: r = Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, tr(n->a), tr(n->b), false)); break;
    default: fprintf(stderr, "tr bool op %d\n", n->op); abort();
  } else {
    auto bv = [&](Node* x) -> Z3_ast { Z3_ast z = tr(x); if (x->w == 1) { Z3_sort so = Z3_mk_bv_sort(c, 1); z = Z3_mk_ite(c, z, Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so)); } return z; };
    switch (n->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(c, n->k, Z3_mk_bv_sort(c, n->w)); break;
    case O_VAR: r = Z3_mk_const(c, Z3_mk_int_symbol(c, n->k), Z3_mk_bv_sort(c, n->w)); break;
    case O_NOT: r = Z3_mk_bvnot(c, tr(n->a)); break;
    case O_ITE: r = Z3_mk_ite(c, tr(n->a), tr(n->b), tr(n->c)); break;
    case O_CONCAT: r = Z3_mk_concat(c, bv(n->a), bv(n->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(c, n->k + n->w - 1, n->k, tr(n->a)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(c, n->w - n->a->w, bv(n->a)); break; case O_SEXT: r = Z3_mk_sign_ext(c, n->w - n->a->w, bv(n->a)); break;
    default: { Z3_ast x = tr(n->a), y = tr(n->b);
      switch (n->op) { case O_AND: r = Z3_mk_bvand(c, x, y); break; case O_OR: r = Z3_mk_bvor(c, x, y); break; case O_XOR: r = Z3_mk_bvxor(c, x, y); break;
        case O_ADD: r = Z3_mk_bvadd(c, x, y); break; case O_SUB: r = Z3_mk_bvsub(c, x, y); break; case O_MUL: r = Z3_mk_bvmul(c, x, y); break;
        case O_UDIV: r = Z3_mk_bvudiv(c, x, y); break; case O_SDIV: r = Z3_mk_bvsdiv(c, x, y); break; case O_UREM: r = Z3_mk_bvurem(c, x, y); break; case O_SREM: r = Z3_mk_bvsrem(c, x, y); break;
        case O_SHL: r = Z3_mk_bvshl(c, x, y); break; case O_LSHR: r = Z3_mk_bvlshr(c, x, y); break; case O_ASHR: r = Z3_mk_bvashr(c, x, y); break;
        default: fprintf(stderr, "tr op %d\n", n->op); abort(); } }
    }
  }
  if (n->w == 1 && (n->op == O_AND || n->op == O_OR || n->op == O_ITE || n->op == O_EQ || n->op >= O_ULT && n->op <= O_SLE)) { // name it, so that later formulas stay small
    Z3_ast nm = Z3_mk_const(c, Z3_mk_int_symbol(c, 0x20000000 + n->id), Z3_mk_bool_sort(c));
    Z3_solver_assert(c, s, Z3_mk_eq(c, nm, r)); defs++; r = nm;
  }
  n->z = r; n->zepoch = epoch; return r;
}
Z3_ast Solver::lit(Node* n) {
  if (n->op == O_NOT) return Z3_mk_not(ctx, lit(n->a));
  Z3_ast r = tr(n);
  if (n->op == O_VAR || n->op == O_AND || n->op == O_OR || n->op == O_ITE || n->op == O_EQ || n->op >= O_ULT && n->op <= O_SLE) return r;
  Z3_ast nm = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, 0x20000000 + n->id), Z3_mk_bool_sort(ctx));
  Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, nm, r)); defs++; n->z = nm; return nm;
}
bool Solver::z3check(const std::vector<Node*>& cs, ModelP* m) {
  auto t0 = std::chrono::steady_clock::now();
  static u64 maxdefs = getenv("BSX_MAXDEFS") ? atoll(getenv("BSX_MAXDEFS")) : 6000;
  if (!ctx || defs > maxdefs) reset();
  std::vector<Z3_ast> as;
  for (Node* n : cs) { if (n == N_T) continue; if (n == N_F) return false; as.push_back(lit(n)); }
  auto t1 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  queries++; auto t2 = std::chrono::steady_clock::now();
  bool res = r == Z3_L_TRUE;
  if (r == Z3_L_UNDEF) { timeouts++; fprintf(stderr, "solver: unknown (%s)\n", Z3_solver_get_reason_unknown(ctx, s)); }
  if (res) {
    sat++;
    if (m) {
      auto mm = std::make_shared<Model>();
      Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      unsigned nc = Z3_model_get_num_consts(ctx, zm);
      for (unsigned i = 0; i < nc; i++) { Z3_func_decl d = Z3_model_get_const_decl(ctx, zm, i); Z3_symbol sy = Z3_get_decl_name(ctx, d);
        if (Z3_get_symbol_kind(ctx, sy) != Z3_INT_SYMBOL) continue; int ix = Z3_get_symbol_int(ctx, sy); if (ix < 0 || ix >= 0x20000000) continue;
        Z3_ast v = Z3_model_get_const_interp(ctx, zm, d); if (!v) continue; u64 val = 0;
        if (g_vars[ix].w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, v, (uint64_t*)&val);
        mm->vals[ix] = val; }
      Z3_model_dec_ref(ctx, zm);
      static bool chk = getenv("BSX_NOCHECK") == nullptr;
      if (chk) for (Node* n : cs) if (!mm->eval(n)) { fprintf(stderr, "internal: model does not satisfy %s\n", nodeStr(n).c_str()); abort(); }
      *m = mm;
    }
  } else if (r == Z3_L_FALSE) unsat++;
  auto t3 = std::chrono::steady_clock::now(); static double A, Bq, Cq; A += std::chrono::duration<double>(t1 - t0).count(); Bq += std::chrono::duration<double>(t2 - t1).count(); Cq += std::chrono::duration<double>(t3 - t2).count(); if (getenv("BSX_PROF") && queries % 200 == 0) fprintf(stderr, "tr %.2f check %.2f model %.2f defs %llu\n", A, Bq, Cq, (unsigned long long)defs);
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == Z3_L_UNDEF) { fprintf(stderr, "ENGINE-ERROR: solver gave up\n"); printf("ENGINE-ERROR solver gave up\n"); fflush(stdout); _Exit(3); }
  return res;
}

// ---- fast solver ----
static Sat* S_; static u32 S_epoch = 0; static std::deque<std::vector<Lit>> S_bv; static u32 S_stamp = 0;
struct InVar { std::vector<Lit> bits; std::map<u64, Lit> dir; bool direct = false; }; static std::unordered_map<u32, InVar> S_in;
static void sreset() { delete S_; S_ = new Sat; S_epoch++; S_bv.clear(); S_in.clear(); }
static u64 S_first = 0; static u64 S_mul = getenv("BSX_MUL") ? atoll(getenv("BSX_MUL")) : 4; static bool S_new = false;
static void sfresh() { static u64 nclmax = getenv("BSX_NCL") ? atoll(getenv("BSX_NCL")) : 3000; if (!S_ || S_->ncl > std::max(nclmax, std::min<u64>(S_mul * S_first, 600000))) { sreset(); S_new = true; } }
static void senc() { if (S_new) { S_new = false; S_first = S_->ncl; } }
static Lit sand(Lit a, Lit b) { Sat& s = *S_; Lit T = s.T; if (a == T) return b; if (b == T) return a; if (a == lneg(T) || b == lneg(T) || a == lneg(b)) return lneg(T); if (a == b) return a; Lit r = 2 * s.newVar(); s.addClause({lneg(r), a}); s.addClause({lneg(r), b}); s.addClause({r, lneg(a), lneg(b)}); return r; }
static Lit sor(Lit a, Lit b) { return lneg(sand(lneg(a), lneg(b))); }
static Lit sxor(Lit a, Lit b) { Sat& s = *S_; Lit T = s.T; if (a == T) return lneg(b); if (b == T) return lneg(a); if (a == lneg(T)) return b; if (b == lneg(T)) return a; if (a == b) return lneg(T); if (a == lneg(b)) return T; Lit r = 2 * s.newVar(); s.addClause({lneg(r), a, b}); s.addClause({lneg(r), lneg(a), lneg(b)}); s.addClause({r, lneg(a), b}); s.addClause({r, a, lneg(b)}); return r; }
static Lit smux(Lit c, Lit a, Lit b) { Sat& s = *S_; Lit T = s.T; if (c == T) return a; if (c == lneg(T)) return b; if (a == b) return a; if (a == T) return sor(c, b); if (a == lneg(T)) return sand(lneg(c), b); if (b == T) return sor(lneg(c), a); if (b == lneg(T)) return sand(c, a); Lit r = 2 * s.newVar(); s.addClause({lneg(c), lneg(a), r}); s.addClause({lneg(c), a, lneg(r)}); s.addClause({c, lneg(b), r}); s.addClause({c, b, lneg(r)}); s.addClause({lneg(a), lneg(b), r}); s.addClause({a, b, lneg(r)}); return r; }
static Lit sbool(Node* n);
static const std::vector<Lit>& sbits(Node* n);
static Lit scmp(const std::vector<Lit>& a, const std::vector<Lit>& b, bool sgn, bool eq) { Lit r = eq ? S_->T : lneg(S_->T); for (size_t i = 0; i < a.size(); i++) { Lit x = a[i], y = b[i]; if (sgn && i + 1 == a.size()) std::swap(x, y); r = smux(sxor(x, y), y, r); } return r; }
static Lit seqv(const std::vector<Lit>& a, const std::vector<Lit>& b) { Lit r = S_->T; for (size_t i = 0; i < a.size(); i++) r = sand(r, lneg(sxor(a[i], b[i]))); return r; }
static std::vector<Lit> sadd(const std::vector<Lit>& a, const std::vector<Lit>& b, Lit cin) { std::vector<Lit> r; Lit c = cin; for (size_t i = 0; i < a.size(); i++) { Lit x = sxor(a[i], b[i]); r.push_back(sxor(x, c)); c = sor(sand(a[i], b[i]), sand(x, c)); } return r; }
static Lit sbool(Node* n) {
  if (n->sepoch == S_epoch) return n->sl; Lit r;
  switch (n->op) {
  case O_CONST: r = n->k ? S_->T : lneg(S_->T); break;
  case O_VAR: r = 2 * S_->newVar(); S_in[n->k].bits = {r}; break;
  case O_INSET: { u64 full = n->a->w >= 6 ? ~0ull : ((1ull << (1u << n->a->w)) - 1), m = n->k & full; bool ng = __builtin_popcountll(m) * 2 > __builtin_popcountll(full); if (ng) m = ~m & full;
    std::vector<Lit> bs(sbits(n->a)); InVar& iv = S_in[n->a->k]; // value i selected: a conjunction of the bits
    r = lneg(S_->T); for (int i = 0; i < 64; i++) if (m >> i & 1) { auto it = iv.dir.find(i); Lit d; if (it != iv.dir.end()) d = it->second; else { d = 2 * S_->newVar(); std::vector<Lit> big{d}; for (size_t k = 0; k < bs.size(); k++) { Lit l = i >> k & 1 ? bs[k] : lneg(bs[k]); S_->addClause({lneg(d), l}); big.push_back(lneg(l)); } S_->addClause(big); iv.dir[i] = d; } r = sor(r, d); } if (ng) r = lneg(r); break; }
  case O_NOT: r = lneg(sbool(n->a)); break; case O_AND: r = sand(sbool(n->a), sbool(n->b)); break; case O_OR: r = sor(sbool(n->a), sbool(n->b)); break;
  case O_XOR: r = sxor(sbool(n->a), sbool(n->b)); break; case O_ADD: case O_SUB: r = sxor(sbool(n->a), sbool(n->b)); break;
  case O_EQ: r = n->a->w == 1 ? lneg(sxor(sbool(n->a), sbool(n->b))) : seqv(std::vector<Lit>(sbits(n->a)), sbits(n->b)); break;
  case O_ULT: r = scmp(std::vector<Lit>(sbits(n->a)), sbits(n->b), false, false); break; case O_ULE: r = scmp(std::vector<Lit>(sbits(n->a)), sbits(n->b), false, true); break;
  case O_SLT: r = scmp(std::vector<Lit>(sbits(n->a)), sbits(n->b), true, false); break; case O_SLE: r = scmp(std::vector<Lit>(sbits(n->a)), sbits(n->b), true, true); break;
  case O_ITE: { Lit c = sbool(n->a), x = sbool(n->b), y = sbool(n->c); r = smux(c, x, y); break; }
  case O_EXTRACT: r = sbits(n->a)[n->k]; break;
  default: fprintf(stderr, "fast solver: bool op %d\n", n->op); abort();
  }
  n->sl = r; n->sepoch = S_epoch; return r;
}
static const std::vector<Lit>& sbits(Node* n) {
  static std::vector<Lit> one[8]; static int rot; if (n->w == 1) { auto& o = one[rot++ & 7]; Lit l = sbool(n); o = {l}; return o; }
  if (n->sepoch == S_epoch) return S_bv[n->sl];
  std::vector<Lit> r; Lit F = lneg(S_->T); auto cp = [&](Node* x) { return std::vector<Lit>(sbits(x)); };
  switch (n->op) {
  case O_CONST: for (int i = 0; i < n->w; i++) r.push_back(n->k >> i & 1 ? S_->T : F); break;
  case O_VAR: for (int i = 0; i < n->w; i++) r.push_back(2 * S_->newVar()); S_in[n->k].bits = r; break;
  case O_NOT: r = cp(n->a); for (auto& l : r) l = lneg(l); break;
  case O_ITE: { Lit c = sbool(n->a); auto x = cp(n->b), y = cp(n->c); for (int i = 0; i < n->w; i++) r.push_back(smux(c, x[i], y[i])); break; }
  case O_CONCAT: { r = cp(n->b); auto h = cp(n->a); r.insert(r.end(), h.begin(), h.end()); break; }
  case O_EXTRACT: { auto x = cp(n->a); r.assign(x.begin() + n->k, x.begin() + n->k + n->w); break; }
  case O_ZEXT: r = cp(n->a); r.resize(n->w, F); break; case O_SEXT: { r = cp(n->a); Lit t = r.back(); r.resize(n->w, t); break; }
  case O_AND: { auto x = cp(n->a), y = cp(n->b); for (int i = 0; i < n->w; i++) r.push_back(sand(x[i], y[i])); break; }
  case O_OR: { auto x = cp(n->a), y = cp(n->b); for (int i = 0; i < n->w; i++) r.push_back(sor(x[i], y[i])); break; }
  case O_XOR: { auto x = cp(n->a), y = cp(n->b); for (int i = 0; i < n->w; i++) r.push_back(sxor(x[i], y[i])); break; }
  case O_ADD: r = sadd(cp(n->a), cp(n->b), F); break;
  case O_SUB: { auto y = cp(n->b); for (auto& l : y) l = lneg(l); r = sadd(cp(n->a), y, S_->T); break; }
  case O_SHL: case O_LSHR: case O_ASHR: { auto x = cp(n->a), y = cp(n->b); int w = n->w; Lit fill = n->op == O_ASHR ? x.back() : F; Lit big = F;
    for (int b = 0; b < w; b++) { if (b > 6 || (1 << b) >= w) { big = sor(big, y[b]); continue; } int k = 1 << b; std::vector<Lit> z(w); for (int i = 0; i < w; i++) { int src = n->op == O_SHL ? i - k : i + k; z[i] = smux(y[b], src >= 0 && src < w ? x[src] : fill, x[i]); } x = z; }
    for (int i = 0; i < w; i++) r.push_back(smux(big, fill, x[i])); break; }
  default: fprintf(stderr, "fast solver: op %d\n", n->op); abort();
  }
  S_bv.push_back(r); n->sl = S_bv.size() - 1; n->sepoch = S_epoch; return S_bv.back();
}
static void scone(Node* n, std::vector<Node*>& ins) { std::vector<Node*> st{n}; while (!st.empty()) { Node* x = st.back(); st.pop_back(); if (x->stamp == S_stamp) continue; x->stamp = S_stamp; if (x->op == O_VAR) { ins.push_back(x); continue; } for (Node* y : {x->a, x->b, x->c}) if (y && y->stamp != S_stamp) st.push_back(y); } }
bool Solver::check(const std::vector<Node*>& cs, ModelP* m) {
  static bool nofast = getenv("BSX_Z3ONLY") != nullptr; bool hard = nofast;
  for (Node* n : cs) { if (n == N_F) return false; if (n->hard) hard = true; }
  if (hard) { static int dbg = getenv("BSX_HARD") ? 6 : 0; if (dbg) { dbg--; for (Node* n : cs) if (n->hard) { Node* x = n; for (;;) { Node* y = nullptr; for (Node* c : {x->a, x->b, x->c}) if (c && c->hard) { y = c; break; } if (!y) break; x = y; } fprintf(stderr, "hard: %s\n", nodeStr(x, 8).c_str()); break; } } if (!nofast) { int r = icheck(cs, m); if (r >= 0) return r == 1; } return z3check(cs, m); }
  auto t0 = std::chrono::steady_clock::now();
  sfresh();
  S_stamp++; std::vector<Node*> ins; std::vector<Lit> as;
  for (Node* n : cs) { if (n == N_T) continue; as.push_back(sbool(n)); scone(n, ins); }
  std::vector<int> iv; for (Node* x : ins) { InVar& v = S_in[x->k]; for (Lit l : v.bits) iv.push_back(l >> 1); if (v.bits.empty()) for (auto& d : v.dir) iv.push_back(d.second >> 1); }
  senc(); int r = S_->solve(as, iv, 200000);
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r < 0) { return z3check(cs, m); }
  queries++; fast++;
  if (r == 0) { unsat++; fastunsat++; if (S_->ok == false) { fprintf(stderr, "fast solver inconsistent\n"); abort(); } Node* a = N_T; for (Node* n : cs) a = mkAnd(a, n); claims.push_back({a, nullptr}); return false; }
  sat++;
  if (m) { auto mm = std::make_shared<Model>();
    for (Node* x : ins) { InVar& v = S_in[x->k]; u64 val = 0; if (!v.bits.empty()) { for (size_t i = 0; i < v.bits.size(); i++) if (S_->value(v.bits[i]) > 0) val |= 1ull << i; } else { bool f = false; for (auto& d : v.dir) if (S_->value(d.second) > 0) { val = d.first; f = true; } if (!f) { val = 0; while (v.dir.count(val)) val++; } } mm->vals[x->k] = val; }
    static bool chk = getenv("BSX_NOCHECK") == nullptr; if (chk) for (Node* n : cs) if (!mm->eval(n)) { fprintf(stderr, "internal: fast model does not satisfy %s\n", nodeStr(n).c_str()); abort(); }
    *m = mm; }
  S_->cancel(0);
  return true;
}
int Solver::enumerate(Node* c, const std::vector<Node*>& ns, size_t limit, std::vector<ModelP>& ms, std::vector<std::vector<u64>>& vals) {
  if (getenv("BSX_Z3ONLY") || c->hard) return -1; for (Node* n : ns) if (n->hard) return -1;
  auto t0 = std::chrono::steady_clock::now();
  sfresh();
  S_stamp++; std::vector<Node*> ins; std::vector<Lit> as; if (c != N_T) as.push_back(sbool(c)); scone(c, ins);
  std::vector<std::vector<Lit>> bits; for (Node* n : ns) { bits.push_back(n->w == 1 ? std::vector<Lit>{sbool(n)} : std::vector<Lit>(sbits(n))); scone(n, ins); }
  std::vector<Lit> all; for (auto& b : bits) all.insert(all.end(), b.begin(), b.end()); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
  { std::vector<Lit> a2; for (Lit l : all) if (l != S_->T && l != lneg(S_->T) && !(l & 1 && std::binary_search(all.begin(), all.end(), l ^ 1))) a2.push_back(l); all.swap(a2); }
  std::vector<int> iv; for (Node* x : ins) { InVar& v = S_in[x->k]; for (Lit l : v.bits) iv.push_back(l >> 1); if (v.bits.empty()) for (auto& d : v.dir) iv.push_back(d.second >> 1); }
  senc(); Lit act = 2 * S_->newVar(); as.push_back(act); int res = 1; bool done = false; u64 rounds = 0, cf0 = S_->conflicts, pr0 = S_->props;
  auto block = [&](const std::vector<u64>& v, bool now) { std::vector<Lit> cl{lneg(act)}; std::unordered_map<Lit, bool> val; for (size_t i = 0; i < ns.size(); i++) for (size_t j = 0; j < bits[i].size(); j++) { Lit l = bits[i][j]; val[l & ~1] = ((v[i] >> j & 1) != 0) != (bool)(l & 1); } for (Lit l : all) { bool t = val[l & ~1] != (bool)(l & 1); cl.push_back(t ? lneg(l) : l); } if (now) S_->blockNow(cl); else S_->addClause(cl); };
  for (auto& v : vals) block(v, false);
  while (!done) {
    int r = S_->solve(as, iv, 200000, rounds > 0); rounds++; queries++;
    if (r < 0) { res = -1; break; }
    if (r == 0) { unsat++; fastunsat++; fast++; break; }
    sat++; fast++;
    auto mm = std::make_shared<Model>();
    for (Node* x : ins) { InVar& v = S_in[x->k]; u64 val = 0; if (!v.bits.empty()) { for (size_t i = 0; i < v.bits.size(); i++) if (S_->value(v.bits[i]) > 0) val |= 1ull << i; } else { bool f = false; for (auto& d : v.dir) if (S_->value(d.second) > 0) { val = d.first; f = true; } if (!f) { val = 0; while (v.dir.count(val)) val++; } } mm->vals[x->k] = val; }
    std::vector<u64> tv; for (size_t i = 0; i < ns.size(); i++) { u64 v = 0; for (size_t j = 0; j < bits[i].size(); j++) if (S_->value(bits[i][j]) > 0) v |= 1ull << j; tv.push_back(v); }
    static bool chk = getenv("BSX_NOCHECK") == nullptr; if (chk && (rounds < 4 || rounds % 16 == 0)) { bool bad = !mm->eval(c); for (size_t i = 0; i < ns.size(); i++) if (mm->eval(ns[i]) != tv[i]) bad = true; mm->memo.clear(); if (bad) { fprintf(stderr, "internal: fast model wrong in enumeration\n"); abort(); } }
    ms.push_back(mm); vals.push_back(tv); if (ms.size() > limit) { res = 0; break; }
    block(tv, true); }
  S_->cancel(0); S_->addClause({lneg(act)});
  if (getenv("BSX_EN")) fprintf(stderr, "enum: %zu sols, %zu nodes, %zu lits, %zu inputs, %llu conflicts, %llu props, ncl %llu vars %zu learnts %zu %.4fs\n", vals.size(), ns.size(), all.size(), iv.size(), (unsigned long long)(S_->conflicts - cf0), (unsigned long long)(S_->props - pr0), (unsigned long long)S_->ncl, S_->val.size(), S_->learnts.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
  if (res == 1) { nenum++; eclaims.push_back({c, ns, vals}); }
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return res;
}
bool Solver::certify() { // Z3 proves every claim of unsatisfiability
  auto t0 = std::chrono::steady_clock::now(); std::sort(claims.begin(), claims.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; }); claims.erase(std::unique(claims.begin(), claims.end()), claims.end());
  for (auto& e : eclaims) claims.push_back({e.c, (Node*)&e}); if (claims.empty()) return true;
  reset(); size_t n = claims.size(), step = 1; while (n / step > 400) step++; bool ok = true; Z3_lbool r = Z3_L_FALSE;
  for (size_t i = 0; i < n && ok; i++) { // a spread of them first, then the rest as time allows
    size_t idx = i * step % n + i * step / n; if (idx >= n) continue; Node* c = claims[idx].first; if (claims[idx].second) { auto* e = (EnumClaim*)claims[idx].second; for (auto& v : e->vals) { Node* d = N_F; for (size_t j = 0; j < v.size(); j++) d = mkOr(d, mkNot(mkEq(e->ns[j], nodeConst(e->ns[j]->w, v[j])))); c = mkAnd(c, d); } } if (c == N_F) { certified++; continue; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > certify_limit) break;
    Z3_ast a = lit(c); r = Z3_solver_check_assumptions(ctx, s, 1, &a); queries++;
    if (r == Z3_L_TRUE) ok = false; else if (r == Z3_L_FALSE) { unsat++; certified++; } }
  certify_s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += certify_s;
  if (r == Z3_L_TRUE) { fprintf(stderr, "ENGINE-ERROR: Z3 refutes a claim of the fast solver\n"); printf("ENGINE-ERROR certification\n"); fflush(stdout); _Exit(3); }
  return ok;
}
