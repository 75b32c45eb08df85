#pragma once
#include "ir.h"
enum { R_CONST = 1, R_GLOB = 2, R_HEAP = 10, R_STACK = 40, R_FUNC = 100 };
static const u64 OFF0 = 0x1000;
static inline u64 mkaddr(u64 r, u64 slot, u64 off) { return (r << 40) | (slot << 16) | (off + OFF0); }
static inline u32 aregion(u64 a) { return (u32)(a >> 40); }
static inline u32 aslot(u64 a) { return (u32)((a >> 16) & 0xffffff); }
static inline i64 aoff(u64 a) { return (i64)(a & 0xffff) - (i64)OFF0; }
struct GObj { std::string name; const llvm::GlobalVariable* G; u64 size; std::vector<u8> by, wd; };
extern llvm::Module* g_mod; extern const llvm::DataLayout* g_dl;
extern std::vector<DFunc*> g_funcs; extern std::vector<GObj> g_cobjs, g_mobjs; extern std::map<std::string, u64> g_symaddr;
extern std::map<std::string, int> g_builtins; extern std::string g_fatal_ctx;
[[noreturn]] void fatal(const std::string& m);
DFunc* getFunc(const llvm::Function* F); u64 funcAddr(DFunc* f); DFunc* funcAt(u64 a);
u64 globalAddr(const llvm::GlobalVariable* G); u64 constVal(const llvm::Constant* C);
void initConst(const llvm::Constant* C, std::vector<u8>& by, std::vector<u8>& wd, u64 off);
u32 typeId(u64 ti); void decode(DFunc* f);
const std::vector<u64>& liveBefore(DFunc* f, u32 ip, bool afterCall);
std::string instLoc(const DInst* d);
bool flatTy(llvm::Type* T, std::vector<u8>& w, std::vector<u64>& off, u64 base);
