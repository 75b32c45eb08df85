// Hash-consed bit-vector expressions (widths 1..64; width 1 doubles as bool), with the
// simplifications that matter for guarded values, evaluation under models, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <memory>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_INSET, O_NOT, O_AND, O_OR, O_XOR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM,
  O_SREM, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_SMULOVF, O_UMULOVF };

struct Node {
  u8 op, w;
  bool cl;             // tree of ites with constant leaves (or a constant)
  u32 id;
  u32 maxvar;          // 1 + largest variable index inside (0: none)
  Node *a, *b, *c;
  u64 k;               // constant, variable index, extract low bit, inset mask
  const std::vector<u64>* vs; // cl: sorted leaf values
  Z3_ast z;            // translation in the current solver epoch
  u32 zepoch;
  bool hard;           // contains multiplication or division
  int sl; u32 sepoch;  // literal (width 1) or index of the bit vector in the fast solver
  u32 stamp;
};

struct VarInfo { std::string name; u8 w; };

extern std::vector<VarInfo> g_vars;
extern u64 g_nodes;

Node* nodeConst(u8 w, u64 v);
Node* nodeVar(const std::string& name, u8 w);   // same name -> same variable
Node* nodeInset(Node* var, u64 mask);
Node* mkBin(u8 op, Node* a, Node* b);
Node* mkNot(Node* a);                // bool or bitwise
Node* mkAnd(Node* a, Node* b);       // width 1
Node* mkOr(Node* a, Node* b);
Node* mkIte(Node* c, Node* a, Node* b);
Node* mkEq(Node* a, Node* b);
Node* mkExtract(Node* a, u8 lo, u8 w);
Node* mkConcat(Node* hi, Node* lo);
Node* mkZext(Node* a, u8 w);
Node* mkSext(Node* a, u8 w);
extern Node *N_T, *N_F;
static inline bool isC(Node* n) { return n->op == O_CONST; }
static inline u64 maskw(u8 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, u8 w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
u64 foldBin(u8 op, u8 w, u64 a, u64 b);
std::string nodeStr(Node* n, int depth = 6);
void collectVars(Node* n, std::vector<u32>& out);

// A model: values for variables >= from are here, the others in base.
struct Model {
  std::shared_ptr<Model> base; u32 from = 0;
  std::unordered_map<u32, u64> vals;
  std::unordered_map<Node*, u64> memo;
  u64 var(u32 i) { if (i < from && base) return base->var(i); auto it = vals.find(i); return it == vals.end() ? 0 : it->second; }
  u64 eval(Node* n);
};
typedef std::shared_ptr<Model> ModelP;

struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr; u32 epoch = 0; u64 defs = 0;
  u64 queries = 0, sat = 0, unsat = 0; double secs = 0; u64 hinted = 0; u64 timeouts = 0;
  std::vector<Z3_ast> zv; std::vector<u32> zvep;
  void reset();
  Z3_ast tr(Node* n);
  Z3_ast lit(Node* n);
  // conjunction satisfiable?  fills model when it is
  bool check(const std::vector<Node*>& cs, ModelP* m);
  double timeout_ms = 120000;
  // fast solver in front of Z3
  std::vector<std::pair<Node*, Node*>> claims; u64 fast = 0, fastunsat = 0; double certify_s = 0, certify_limit = 12; u64 certified = 0;
  // all distinct values of the nodes under c; first solution given.  1 complete, 0 limit reached, -1 not handled
  int enumerate(Node* c, const std::vector<Node*>& ns, size_t limit, std::vector<ModelP>& ms, std::vector<std::vector<u64>>& vals);
  struct EnumClaim { Node* c; std::vector<Node*> ns; std::vector<std::vector<u64>> vals; }; std::vector<EnumClaim> eclaims; u64 nenum = 0;
  bool certify();
  bool z3check(const std::vector<Node*>& cs, ModelP* m);
  u64 ints = 0; int icheck(const std::vector<Node*>& cs, ModelP* m);
};
extern Solver g_solver;
