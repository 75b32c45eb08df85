// Decides conjunctions with multiplication and division by constants over the integers (Z3, linear arithmetic):
// every bit vector is an integer term congruent to it modulo 2^width, with a range; wrapping is a fresh variable only where
// the range leaves the window.  Solutions are checked by evaluation of the original expressions.
#include "expr.h"
#include <chrono>
typedef __int128 I;
namespace {
struct IT { Z3_ast t = nullptr; I lo = 0, hi = 0; };
struct Unsup {};
struct IS {
  Z3_context c; Z3_solver s; Z3_sort IS_; std::unordered_map<Node*, IT> im, um, sm; std::unordered_map<Node*, Z3_ast> bm; struct QR { IT q, r; };
  std::unordered_map<std::string, QR> dm; std::vector<std::pair<u32, Z3_ast>> vars; u32 fresh = 0;
  static I p2(int k) { return (I)1 << k; }
  static I fl(I a, I b) { I q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
  Z3_ast num(I v) { bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; char b[48]; int i = 47; b[i] = 0; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (neg) b[--i] = '-'; return Z3_mk_numeral(c, b + i, IS_); }
  IT cst(I v) { IT r; r.t = num(v); r.lo = r.hi = v; return r; }
  IT chk(IT r) { I m = p2(120); if (r.lo < -m || r.hi > m) throw Unsup(); return r; }
  IT add(IT a, IT b) { if (a.lo == a.hi && b.lo == b.hi) return cst(a.lo + b.lo); Z3_ast x[2] = {a.t, b.t}; IT r; r.t = Z3_mk_add(c, 2, x); r.lo = a.lo + b.lo; r.hi = a.hi + b.hi; return chk(r); }
  IT mulc(IT a, I k) { if (!k) return cst(0); if (a.lo == a.hi) { return cst(a.lo * k); } I m = p2(120); I ak = k < 0 ? -k : k; I al = a.lo < 0 ? -a.lo : a.lo, ah = a.hi < 0 ? -a.hi : a.hi; if (al > m / ak || ah > m / ak) throw Unsup();
    if (k == 1) return a; Z3_ast x[2] = {num(k), a.t}; IT r; r.t = Z3_mk_mul(c, 2, x); r.lo = k > 0 ? a.lo * k : a.hi * k; r.hi = k > 0 ? a.hi * k : a.lo * k; return r; }
  IT sub(IT a, IT b) { return add(a, mulc(b, -1)); }
  IT var(I lo, I hi) { if (lo == hi) return cst(lo); IT r; r.t = Z3_mk_fresh_const(c, "k", IS_); r.lo = lo; r.hi = hi; as(Z3_mk_ge(c, r.t, num(lo))); as(Z3_mk_le(c, r.t, num(hi))); return r; }
  void as(Z3_ast a) { Z3_solver_assert(c, s, a); }
  QR div(IT a, I d, bool trunc) { // d > 0
    std::string key = std::to_string((unsigned long long)Z3_get_ast_id(c, a.t)) + (trunc && a.lo < 0 ? "t" : "f") + std::to_string((long long)(d >> 40)) + "." + std::to_string((long long)(d & (p2(40) - 1)));
    auto it = dm.find(key); if (it != dm.end()) return it->second;
    QR x; if (trunc && a.lo < 0) { x.q = var(a.lo / d, a.hi / d); x.r = var(-(d - 1) < a.lo ? a.lo : -(d - 1), a.hi < d - 1 ? (a.hi < 0 ? 0 : a.hi) : d - 1);
      as(Z3_mk_implies(c, Z3_mk_ge(c, a.t, num(0)), Z3_mk_ge(c, x.r.t, num(0)))); as(Z3_mk_implies(c, Z3_mk_le(c, a.t, num(0)), Z3_mk_le(c, x.r.t, num(0)))); }
    else { x.q = var(fl(a.lo, d), fl(a.hi, d)); x.r = x.q.lo == x.q.hi ? IT() : var(0, d - 1); if (!x.r.t) x.r = sub(a, cst(x.q.lo * d)); }
    if (x.q.lo != x.q.hi || (trunc && a.lo < 0)) as(Z3_mk_eq(c, a.t, add(mulc(x.q, d), x.r).t));
    dm[key] = x; return x; }
  IT win(IT a, I lo, I hi, int w) { // the member of [lo,hi] congruent to a modulo 2^w
    if (a.lo >= lo && a.hi <= hi) return a;
    I k0 = fl(a.lo - lo, p2(w)), k1 = fl(a.hi - lo, p2(w)); if (k0 == k1) return sub(a, cst(k0 * p2(w)));
    IT k = var(k0, k1); IT r = sub(a, mulc(k, p2(w))); as(Z3_mk_ge(c, r.t, num(lo))); as(Z3_mk_le(c, r.t, num(hi))); r.lo = lo; r.hi = hi; return r; }
  IT uns(Node* n) { auto it = um.find(n); if (it != um.end()) return it->second; IT r = win(val(n), 0, p2(n->w) - 1, n->w); return um[n] = r; }
  IT sgn(Node* n) { auto it = sm.find(n); if (it != sm.end()) return it->second; IT r = win(val(n), -p2(n->w - 1), p2(n->w - 1) - 1, n->w); return sm[n] = r; }
  IT ite(Z3_ast b, IT x, IT y) { IT r; r.t = Z3_mk_ite(c, b, x.t, y.t); r.lo = x.lo < y.lo ? x.lo : y.lo; r.hi = x.hi > y.hi ? x.hi : y.hi; return r; }
  IT andc(Node* a, u64 m) { IT t = val(a), r = cst(0); int w = a->w; for (int p = 0; p < w;) { if (!(m >> p & 1)) { p++; continue; } int q = p; while (q < w && (m >> q & 1)) q++; IT x = p ? div(t, p2(p), false).q : t; if (q - p >= w) x = win(x, 0, p2(w) - 1, w); else x = div(x, p2(q - p), false).r; r = add(r, mulc(x, p2(p))); p = q; } return r; }
  IT val(Node* n) { auto it = im.find(n); if (it != im.end()) return it->second; IT r = val_(n); return im[n] = r; }
  IT distr(Node* n, Node* x, bool left) { Node* b = left ? mkBin(n->op, x->b, n->b) : mkBin(n->op, n->a, x->b); Node* d = left ? mkBin(n->op, x->c, n->b) : mkBin(n->op, n->a, x->c); return ite(bl(x->a), val(b), val(d)); }
  IT val_(Node* n) {
    if (n->w == 1) { if (isC(n)) return cst(n->k); return ite(bl(n), cst(1), cst(0)); }
    switch (n->op) {
    case O_CONST: { I k = n->k; if (n->k >> (n->w - 1)) k -= p2(n->w); return cst(k); }
    case O_VAR: { IT r = var(0, p2(n->w) - 1); vars.push_back({(u32)n->k, r.t}); return r; }
    case O_NOT: return sub(cst(-1), val(n->a));
    case O_ITE: return ite(bl(n->a), val(n->b), val(n->c));
    case O_ADD: return norm(add(val(n->a), val(n->b)), n->w);
    case O_SUB: return norm(sub(val(n->a), val(n->b)), n->w);
    case O_MUL: { if (!isC(n->b)) { if (n->a->cl && !isC(n->a)) return distr(n, n->a, true); if (n->b->cl) return distr(n, n->b, false); throw Unsup(); } I k = n->b->k; if (n->b->k >> (n->w - 1)) k -= p2(n->w); IT a = val(n->a); I ab = k < 0 ? -k : k; I lim = p2(118) / (ab ? ab : 1); if (a.lo < -lim || a.hi > lim) a = sgn(n->a); return norm(mulc(a, k), n->w); }
    case O_CONCAT: return norm(add(mulc(val(n->a), p2(n->b->w)), uns(n->b)), n->w);
    case O_EXTRACT: { IT t = val(n->a); return n->k ? div(t, p2(n->k), false).q : t; }
    case O_ZEXT: return uns(n->a); case O_SEXT: return sgn(n->a);
    case O_AND: case O_OR: case O_XOR: { if (!isC(n->b)) { if (n->b->cl) return distr(n, n->b, false); if (n->a->cl) return distr(n, n->a, true); throw Unsup(); } IT x = andc(n->a, n->b->k); if (n->op == O_AND) return x; return norm(add(add(val(n->a), cst(n->b->k)), mulc(x, n->op == O_OR ? -1 : -2)), n->w); }
    case O_UDIV: case O_UREM: { if (!isC(n->b)) { if (n->b->cl) return distr(n, n->b, false); throw Unsup(); } if (!n->b->k) throw Unsup(); QR x = div(uns(n->a), n->b->k, false); return n->op == O_UDIV ? x.q : x.r; }
    case O_SDIV: case O_SREM: { if (!isC(n->b)) { if (n->b->cl) return distr(n, n->b, false); throw Unsup(); } if (!n->b->k) throw Unsup(); I k = n->b->k; if (n->b->k >> (n->w - 1)) k -= p2(n->w); QR x = div(sgn(n->a), k < 0 ? -k : k, true); if (n->op == O_SREM) return x.r; return k < 0 ? mulc(x.q, -1) : x.q; }
    default: throw Unsup();
    } }
  IT norm(IT r, int w) { I m = p2(w < 56 ? w + 40 : 100); if (r.lo < -m || r.hi > m) return win(r, -p2(w - 1), p2(w - 1) - 1, w); return r; }
  Z3_ast bl(Node* n) { auto it = bm.find(n); if (it != bm.end()) return it->second; Z3_ast r = bl_(n); bm[n] = r; return r; }
  Z3_ast bl_(Node* n) {
    switch (n->op) {
    case O_CONST: return n->k ? Z3_mk_true(c) : Z3_mk_false(c);
    case O_VAR: { Z3_ast r = Z3_mk_fresh_const(c, "b", Z3_mk_bool_sort(c)); vars.push_back({(u32)n->k, r}); return r; }
    case O_NOT: return Z3_mk_not(c, bl(n->a));
    case O_AND: { Z3_ast x[2] = {bl(n->a), bl(n->b)}; return Z3_mk_and(c, 2, x); }
    case O_OR: { Z3_ast x[2] = {bl(n->a), bl(n->b)}; return Z3_mk_or(c, 2, x); }
    case O_ITE: return Z3_mk_ite(c, bl(n->a), bl(n->b), bl(n->c));
    case O_INSET: { IT v = uns(n->a); std::vector<Z3_ast> d; for (int i = 0; i < 64 && (I)i < p2(n->a->w); i++) if (n->k >> i & 1) d.push_back(Z3_mk_eq(c, v.t, num(i))); return d.empty() ? Z3_mk_false(c) : Z3_mk_or(c, d.size(), d.data()); }
    case O_EQ: { if (n->a->w == 1) return Z3_mk_eq(c, bl(n->a), bl(n->b)); IT a = val(n->a), b = val(n->b); I w = p2(n->a->w); if (a.hi - b.lo < w && b.hi - a.lo < w) return Z3_mk_eq(c, a.t, b.t);
      if ((a.lo >= 0 && a.hi < w) || (b.lo >= 0 && b.hi < w)) return Z3_mk_eq(c, uns(n->a).t, uns(n->b).t); return Z3_mk_eq(c, sgn(n->a).t, sgn(n->b).t); }
    case O_ULT: return Z3_mk_lt(c, uns(n->a).t, uns(n->b).t); case O_ULE: return Z3_mk_le(c, uns(n->a).t, uns(n->b).t);
    case O_SLT: return Z3_mk_lt(c, sgn(n->a).t, sgn(n->b).t); case O_SLE: return Z3_mk_le(c, sgn(n->a).t, sgn(n->b).t);
    case O_EXTRACT: { if (n->k + 1 == n->a->w) return Z3_mk_lt(c, sgn(n->a).t, num(0)); IT t = val(n->a); if (n->k) t = div(t, p2(n->k), false).q; return Z3_mk_eq(c, div(t, 2, false).r.t, num(1)); }
    case O_SMULOVF: case O_UMULOVF: { if (!isC(n->b)) throw Unsup(); int w = n->a->w; bool sg = n->op == O_SMULOVF; I k = n->b->k; if (sg && (n->b->k >> (w - 1))) k -= p2(w); IT p = mulc(sg ? sgn(n->a) : uns(n->a), k); I lo = sg ? -p2(w - 1) : 0, hi = sg ? p2(w - 1) - 1 : p2(w) - 1;
      Z3_ast x[2] = {Z3_mk_lt(c, p.t, num(lo)), Z3_mk_gt(c, p.t, num(hi))}; return Z3_mk_or(c, 2, x); }
    default: throw Unsup();
    } }
};
}
// 1 satisfiable, 0 not, -1 not decided
int Solver::icheck(const std::vector<Node*>& cs, ModelP* m) {
  auto t0 = std::chrono::steady_clock::now();
  Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error (integers): %s\n", Z3_get_error_msg(c, e)); abort(); });
  IS S; S.c = c; S.IS_ = Z3_mk_int_sort(c); S.s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_LIA")); Z3_solver_inc_ref(c, S.s);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 30000); Z3_solver_set_params(c, S.s, p); Z3_params_dec_ref(c, p);
  int res = -1;
  try { for (Node* n : cs) S.as(S.bl(n)); Z3_lbool r = Z3_solver_check(c, S.s); if (r == Z3_L_FALSE) res = 0;
    else if (r == Z3_L_TRUE) { auto mm = std::make_shared<Model>(); Z3_model zm = Z3_solver_get_model(c, S.s); Z3_model_inc_ref(c, zm);
      for (auto& v : S.vars) { Z3_ast o = nullptr; u64 x = 0; if (Z3_model_eval(c, zm, v.second, true, &o)) { if (Z3_get_ast_kind(c, o) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(c, o, (uint64_t*)&x); else x = Z3_get_bool_value(c, o) == Z3_L_TRUE; } mm->vals[v.first] = x; }
      Z3_model_dec_ref(c, zm); bool ok = true; for (Node* n : cs) if (!mm->eval(n)) { ok = false; fprintf(stderr, "internal: integer model does not satisfy %s\n", nodeStr(n).c_str()); break; }
      if (!ok) abort(); res = 1; if (m) *m = mm; }
    else if (getenv("BSX_HARD")) fprintf(stderr, "integers: gave up\n");
  } catch (Unsup&) { if (getenv("BSX_HARD")) fprintf(stderr, "integers: unsupported\n"); }
  Z3_solver_dec_ref(c, S.s); Z3_del_context(c); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; if (getenv("BSX_HARD")) fprintf(stderr, "integers: %d in %.3f s\n", res, dt);
  if (res >= 0) { queries++; ints++; if (res) sat++; else unsat++; } return res;
}
