#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"

struct Val { u64 c; Expr* e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }

enum IOp : uint8_t {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
  I_ICMP, I_FCMP, I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG,
  I_ZEXT, I_SEXT, I_TRUNC, I_FPEXT, I_FPTRUNC, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI,
  I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE,
  I_LANDINGPAD, I_RESUME, I_ATOMICRMW, I_CMPXCHG, I_VAARG, I_NOP, I_MOVN
};
struct Edge { int target; int bb; std::vector<std::pair<int, int>> moves; };  // (src operand, dst slot)
struct FuncInfo;
struct Piece { u32 off; u16 w; u16 bytes; };  // scalar piece of an aggregate in memory
struct CallInfo {
  std::vector<int> args; std::vector<int> argBase; // argBase: first index in args for each LLVM argument
  std::vector<u32> byval;                // per LLVM argument: size if byval else 0
  FuncInfo* callee = nullptr; int calleeOp = 0; int nret = 0; bool invoke = false; int nFixed = 0;
  std::vector<u16> argW;
  Edge normal, unwind;
};
struct Inst {
  IOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; i64 imm = 0;
  std::vector<Edge>* edges = nullptr;
  std::vector<u64>* cases = nullptr;
  std::vector<std::pair<int, i64>>* gep = nullptr; // (operand, scale), operands sign extended to 64
  std::vector<Piece>* pieces = nullptr;
  CallInfo* call = nullptr;
  const llvm::Instruction* I = nullptr;
  int ipdom = -1;  // block index of immediate post-dominator (condbr/switch)
  bool isFP = false;
};
struct State;
typedef int (*Builtin)(State& s, Inst& in, std::vector<Val>& a, Val* ret);
struct FuncInfo {
  llvm::Function* F = nullptr; std::string name; u64 addr = 0; bool decoded = false;
  std::vector<Inst> code; std::vector<u16> slotW; int nslots = 0; std::vector<int> argSlots; int nargslots = 0;
  std::vector<int> blockStart;
  Builtin builtin = nullptr; FuncInfo* alias = nullptr; bool builtinLooked = false; bool noMerge = false, doMerge = false;
  u64 calls = 0, steps = 0;
};

struct SymB { Expr* e; u32 idx; };
struct MemData { int rc; u32 size; uint8_t* c; SymB* s; uint8_t* un; };  // un: 1 = uninitialised byte
enum OKind : uint8_t { K_NONE, K_FUNC, K_GLOBAL, K_STACK, K_HEAP, K_CONST };
struct Obj { MemData* d; u32 size; uint8_t kind; uint8_t live; uint16_t tag; };
enum { PGSZ = 128 };
struct Page { int rc; int live; Obj o[PGSZ]; };
struct Memory {
  std::vector<Page*> pages; u32 next = 1; 
  Memory() {}
  Memory(const Memory& m); Memory& operator=(const Memory& m); ~Memory();
  Obj* get(u32 id) const { u32 p = id / PGSZ; if (p >= pages.size() || !pages[p]) return nullptr; return &pages[p]->o[id % PGSZ]; }
  Obj* getW(u32 id);               // page made private
  MemData* dataW(u32 id);          // data made private
  u32 alloc(u64 size, OKind k, bool zero);
  void freeObj(u32 id);
};
struct Frame {
  FuncInfo* f; int pc; std::vector<Val> r; std::vector<u32> allocas; std::vector<Val> varargs; int bb = 0;
};
struct Thread { std::vector<Frame> st; bool done = false; };
struct Exc { Val ptr; Val sel; };
struct State {
  Memory mem;
  std::vector<Thread> th; int cur = 0;
  std::vector<Expr*> pc; Assign model;
  std::vector<std::pair<std::string, std::pair<Expr*, Val>>> obs;
  std::map<std::string, int> occ;         // occurrence counters of symbolic names
  std::vector<uint32_t> inputs;           // variable ids in creation order
  std::vector<std::pair<std::string, Val>> notes;
  std::vector<u64> caught;                // exception stack
  u64 curExc = 0;
  u64 steps = 0; int depth = 0; int expectAbort = 0; u64 heapLive = 0; u64 allocCount = 0;
  u64 uid = 0;
  int uninitCnt = 0;
  Frame& top() { return th[cur].st.back(); }
};
