// Symbolic machine state.
#pragma once
#include "decode.h"
#include <array>
struct V { Node* n; u64 c; };
static inline V VC_(u64 c) { return {nullptr, c}; }
static inline V VN(Node* n) { if (isC(n)) return {nullptr, n->k}; return {n, 0}; }
static inline Node* toN(const V& v, u8 w) { return v.n ? v.n : nodeConst(w, v.c); }

template <class T> struct Ref {
  T* p = nullptr; Ref() {} Ref(T* q) : p(q) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; } ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; } explicit operator bool() const { return p; }
  T* wr() { if (p->rc > 1) { T* q = new T(*p); q->rc = 1; p->rc--; p = q; } return p; }
};
struct Sym { u16 off; u8 n; Node* v; };
struct Obj {
  u32 rc = 0; u32 size; std::vector<u8> by, st, wd; std::vector<Sym> sy; // st: 0 uninit 1 concrete 2 symbolic
  Obj(u32 n, u8 init) : size(n), by(n, 0), st(n, init), wd(n, 0) {}
  Obj(const Obj& o) : rc(0), size(o.size), by(o.by), st(o.st), wd(o.wd), sy(o.sy) {}
};
enum { MAXT = 10 };
// happens-before knowledge of one access: which threads (bits 0..9), fences (10..29) and synchronisation objects (30..) know it
enum { KB_REL = 10, KB_ACQ = 20, KB_SYNC = 30, KB_N = 256 };
struct Acc { u16 off, sz; u8 tid; bool wr, at; u32 fn, ip, ls; Node* pres; u64 k[KB_N / 64]; std::vector<std::pair<u16, Node*>> sym;
  bool bit(int b) const { return k[b >> 6] >> (b & 63) & 1; }
  Node* get(int b) const { if (bit(b)) return N_T; for (auto& x : sym) if (x.first == b) return x.second; return N_F; }
  void set(int b, Node* n) { for (size_t i = 0; i < sym.size(); i++) if (sym[i].first == b) { sym[i] = sym.back(); sym.pop_back(); break; } if (n == N_T) k[b >> 6] |= 1ull << (b & 63); else { k[b >> 6] &= ~(1ull << (b & 63)); if (n != N_F) sym.push_back({(u16)b, n}); } }
  void only(int b) { for (auto& x : k) x = 0; sym.clear(); k[b >> 6] |= 1ull << (b & 63); } };
struct AccInfo { u32 rc = 0; std::vector<Acc> v; AccInfo() {} AccInfo(const AccInfo& o) : rc(0), v(o.v) {} };
struct Slot { Ref<Obj> o; Node* alive = nullptr; bool dead = false, priv = false; Ref<AccInfo> acc; };
struct Frame { u32 rc = 0; bool pruned = false; DFunc* f; u32 ip = 0; std::vector<V> r; u32 salloc = 0; std::vector<u64> va;
  Frame() {} Frame(const Frame& o) : rc(0), f(o.f), ip(o.ip), r(o.r), salloc(o.salloc), va(o.va) {} };
struct Thread {
  std::vector<Ref<Frame>> st; u8 status = 0; // 0 ready (at start or suspended), 1 finished
  V lp[2]; u32 name = 0; bool daemon = false; bool dirty = true; u32 ls = 0; u8 fresh = 0, mov = 0, opt = 0, rel = 0; // not yet started; the last visible operation of this step was a lock acquisition; locks acquired without a scheduling point; a lock was released in this step
};
struct PC { Node* c; PC* up; u32 depth; Node* full; };
struct Fact { Node* n; u64 v; };
struct State {
  std::vector<Slot> glob; std::vector<std::vector<Slot>> heap, stack; // per thread
  std::vector<Thread> th; PC* pc; ModelP hint; std::vector<Fact> facts;
  u32 ndidx = 0; int last = -1; u32 nctx = 0; u64 tag = 0; // context switches used
  u64 steps = 0; // instructions in the current step
  bool ghost = false;
};
