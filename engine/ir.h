// LLVM IR decoded into a compact instruction form.
#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

enum DOp : u8 { D_BIN, D_NOTE, D_ICMP, D_SELECT, D_LOAD, D_STORE, D_GEP, D_TRUNC, D_ZEXT, D_SEXT, D_COPY, D_CALL, D_RET, D_BR, D_CBR,
  D_SWITCH, D_UNREACH, D_ALLOCA, D_LPAD, D_RESUME, D_RMW, D_CMPXCHG, D_FENCE, D_OVF, D_MEMCPY, D_MEMSET, D_LIFE, D_ASSUME, D_TYPEID, D_UNSUP, D_MINMAX, D_NOP, D_PHI, D_FSHL, D_CTPOP, D_CTZ, D_CTLZ, D_BSWAP, D_FP, D_FCMP, D_FCONV, D_ABS };

struct Opnd { bool reg; u32 r; u64 c; };
struct Move { u32 dst; Opnd src; };
struct Edge { u32 target = 0; std::vector<Move> moves; u32 bb = 0; };
struct DFunc;
struct LClause { bool isFilter; u64 ti; std::vector<u64> filt; };
struct DInst {
  DOp op; u8 sub = 0; u8 w = 0; u8 w2 = 0; // w: operand width; w2: result width
  bool invoke = false, atomic = false, isvolatile = false, marked = false;
  u8 ord = 0, ord2 = 0;
  u32 dst = ~0u; u8 ndst = 0;
  std::vector<Opnd> a;
  std::vector<u64> imm;          // GEP scales, switch values, byval sizes ...
  std::vector<Edge> e;
  DFunc* callee = nullptr; int builtin = 0; llvm::Type* ty = nullptr;
  std::vector<std::pair<u32,u32>> args; // callee args: (start in a, count)
  std::vector<LClause> clauses; bool cleanup = false;
  const llvm::Instruction* I = nullptr; u32 idx = 0;
  std::string* note = nullptr;
};
struct DFunc {
  std::string name; const llvm::Function* F = nullptr; u32 id = 0; bool decoded = false, norace = false, external = false, native = false;
  u32 nregs = 0; std::vector<u8> rw; // register widths
  std::vector<u32> params;           // flattened arg registers
  std::vector<DInst> ins; std::vector<u32> bbstart; std::vector<u32> bbof;
  std::vector<std::vector<u64>> livein; // per block bitset
  std::map<u32, std::vector<u64>> liveAt; // at instruction, before it
  int builtin = 0; u64 execs = 0; u8 retw = 0;
  bool varargs = false;
};
