#pragma once
#include "state.h"
#include <chrono>
struct Viol { std::string label, where, detail; ModelP m; int level; bool race = false; u64 k1 = 0, k2 = 0; };
struct Tgt { Node* g; u64 a; Slot* sl; i64 off; };
struct Tgts { bool one = true; Tgt f; std::vector<Tgt> v; size_t n() const { return one ? 1 : v.size(); } Tgt& operator[](size_t i) { return one ? f : v[i]; } };
struct Opts { int maxLevel = 400; int ctx = -1; u64 maxSteps = 400000; bool norace = false, norp = false, nostop = false; int samples = 3; bool verbose = false; bool nomerge = false; double timeLimit = 1e9; u64 maxStates = 1000000000; bool daemonOk = true; };
extern Opts g_opt;
struct TraceEv { char k; int t; u64 a, b; };

struct Engine {
  // configuration of one exploration
  std::vector<Slot> cslots;
  Model* conc = nullptr;        // concrete mode
  std::vector<TraceEv> trace; std::vector<u64> ev; // concrete mode: events per thread
  int level = 0; Node* svar = nullptr;
  std::vector<State*> out;      // successors of the current step
  std::vector<State*> work;
  std::map<std::string, Viol> viols; std::map<std::string, int> violCount;
  std::map<std::pair<u64, u64>, std::vector<std::pair<ModelP, int>>> races; // instruction pairs -> models
  std::set<u64> newMarks;
  std::map<std::string, u64> reached; std::set<DFunc*> funcs;
  u64 nstates = 0, ntrans = 0, nmerge = 0, ninst = 0, nforks = 0, truncated = 0, nassert = 0, maxfront = 0; int maxThreads = 1; int levels = 0; u64 nfinal = 0;
  std::vector<std::pair<ModelP, int>> samples;
  std::string concViol; bool stopConc = false;

  void addc(State* s, Node* c);
  bool check(State* s, Node* c, ModelP* m);   // pc && c satisfiable
  int decide(State* s, Node* c, ModelP* other); // 1 only true, 0 only false, 2 both (hint satisfies true), 3 both (hint satisfies false)
  State* clone(State* s);
  void report(State* s, const std::string& label, const std::string& where, ModelP m, const std::string& detail = "");
  const char* checkAddr(State* s, u64 a, u64 n, bool wr, Slot*& sl, i64& off);
  bool resolve(State* s, int t, V p, u64 n, bool wr, const DInst* d, Tgts& out);
  V readAt(State* s, int t, Slot* sl, i64 off, u32 n);
  void writeAt(Slot* sl, i64 off, u32 n, V v);
  bool load(State* s, int t, V p, u8 w, const DInst* d, V& r, bool at = false, bool norace = false);
  bool store(State* s, int t, V p, u8 w, V v, const DInst* d, bool at = false, bool norace = false);
  void access(State* s, int t, Slot* sl, i64 off, u32 n, bool wr, bool at, const DInst* d, Node* g = N_T);
  void race(State* s, u32 f1, u32 i1, u32 f2, u32 i2, ModelP m);
  // fork until p has one value; false: s was pushed back to work or killed
  bool concretize(State* s, Node* p, u64& v);
  V fresh(State* s, int t, const char* k, u8 w);
  void run(State* s, int t, int mode);
  void exec(State* s, int t, bool skipYield);
  bool builtin(State* s, int t, const DInst& d, Frame* fr, bool& stop);
  void finishCall(State* s, int t, Frame* fr, const DInst& d, const V* rv, u32 n);
  void applyEdge(Frame* fr, const Edge& e);
  bool pushCall(State* s, int t, DFunc* f, const std::vector<V>& args, const DInst* d);
  bool raise(State* s, int t, u64 exc, int fromFrame, bool phase1);
  bool upcast(State* s, int t, u64 obj, u64 ti, u64 target, u64& adj, int depth = 0);
  u64 rd(State* s, int t, u64 a, u32 n, bool& ok);
  u64 alloc(State* s, std::vector<Slot>& v, u32 region, u64 size, u8 init);
  bool freeObj(State* s, int t, u64 a, const DInst* d);
  Node* enabled(State* s, int t, Node*& tmo, Node*& spur);
  int syncBit(u64 a); void hbCopy(State* s, int src, int dst, bool join, Node* g);
  std::unordered_map<u64, int> syncIdx;
  void hbAcquire(State* s, int t, V p, bool relaxed = false), hbRelease(State* s, int t, V p, bool join, bool relaxed = false);
  void hbAddrs(State* s, V p, std::vector<std::pair<u64, Node*>>& out);
  void prune(State* s);
  void key(State* s, std::vector<u32>& k);
  bool merge(State* A, State* B);
  bool mergeSlots(State* A, State* B, std::vector<Slot>& a, std::vector<Slot>& b, Node* g);
  State* initial(DFunc* entry, const std::vector<DFunc*>& ctors);
  void explore(DFunc* entry, const std::vector<DFunc*>& ctors, int maxLevel);
  std::string blockedDesc(State* s);
  struct Table { Node* used; std::vector<Node*> dig; Node* q; std::vector<std::vector<std::vector<std::pair<u32, u64>>>> m; };
  std::vector<Table> tables; u64 ntuples = 0, nkept = 0; double rptime = 0, firstViol = -1;
  void reparam(std::vector<State*>& front); void qclear(); ModelP expand(ModelP m);
  void kill(State* s) { delete s; }
};
u32 lsOf(const std::vector<u64>& v); u32 lsAdd(u32 a, u64 x); u32 lsDel(u32 a, u64 x); u32 lsMeet(u32 a, u32 b);
extern Engine* E; extern int g_pass;
enum { B_NONE, B_TID, B_SPAWN, B_SCHED, B_AWAIT, B_NONDET, B_ASSUME, B_ASSERT, B_FAIL, B_REACH, B_OBSERVE, B_MALLOC, B_FREE, B_HBREL, B_HBACQ, B_RAISE,
  B_NATIVE, B_LIVE, B_DYNCAST, B_CONCRETE, B_DAEMON, B_GHOST, B_EXIT, B_REACHIF, B_VASTART, B_SYMB, B_ALIVE, B_SIZE, B_PRINT, B_LKREL, B_LKACQ, B_MOV, B_CASE };
extern bool g_reduce, g_restart;
