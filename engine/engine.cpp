// osym: symbolic executor for LLVM 18 bitcode.
#include "engine.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <algorithm>
using namespace llvm;
#define u64 ::u64
#undef u64

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static std::map<std::string, std::string> params;   // osym_param values
static std::string outDir = ".";
static double timeLimit = 300; static double tStart;
static u64 stepLimit = 400000000ull; static int maxProcs = 1; static int maxViol = 8; static int traceWanted = 20;
static bool forkSel = false, mergeAll = false; static std::vector<std::string> mergePats, noMergePats; static u64 mergeBudget = 20000; static u64 maxIte = 600;
static double memLimitMB = 3000;
static bool verbose = false;

// ---------------------------------------------------------------- shared between worker processes
struct Shared {
  std::atomic<int> slots, active, stop, nviol, incomplete, ntrace;
  std::atomic<u64> paths, forks, steps, assertsChecked, assertsSym, queries, cacheHits, sat, unsat, unknown, fpa, uf, merges, mergeFails, symBranches, assumeKilled, abortsExpected, procs;
  std::atomic<u64> solverUs, maxQueryUs;
  char reach[64][64]; std::atomic<u64> reachN[64]; std::atomic<int> nreach;
};
static Shared* SH;
static FILE* outF = nullptr;
static std::set<std::string> seenViol;

// ---------------------------------------------------------------- memory
static const u64 OBASE = 0x40000000ull;
static inline u64 addrOf(u32 id) { return ((u64)id << 32) | OBASE; }
static MemData* newData(u64 size, bool zero) {
  MemData* d = new MemData; d->rc = 1; d->size = (u32)size; d->c = (uint8_t*)calloc(size ? size : 1, 1); d->s = nullptr; d->un = nullptr;
  if (!zero && size) { d->un = (uint8_t*)malloc(size); memset(d->un, 1, size); }
  return d;
}
static void relData(MemData* d) { if (d && --d->rc == 0) { free(d->c); free(d->s); free(d->un); delete d; } }
static MemData* cloneData(MemData* o) {
  MemData* d = new MemData; d->rc = 1; d->size = o->size; size_t n = o->size ? o->size : 1;
  d->c = (uint8_t*)malloc(n); memcpy(d->c, o->c, n); d->s = nullptr; d->un = nullptr;
  if (o->s) { d->s = (SymB*)malloc(n * sizeof(SymB)); memcpy(d->s, o->s, n * sizeof(SymB)); }
  if (o->un) { d->un = (uint8_t*)malloc(n); memcpy(d->un, o->un, n); }
  return d;
}
static void relPage(Page* p) { if (p && --p->rc == 0) { for (int i = 0; i < PGSZ; ++i) relData(p->o[i].d); delete p; } }
Memory::Memory(const Memory& m) : pages(m.pages), next(m.next) { for (auto p : pages) if (p) ++p->rc; }
Memory& Memory::operator=(const Memory& m) { if (this == &m) return *this; for (auto p : m.pages) if (p) ++p->rc; for (auto p : pages) relPage(p); pages = m.pages; next = m.next; return *this; }
Memory::~Memory() { for (auto p : pages) relPage(p); }
static Page* privPage(Memory& m, u32 pi) {
  Page*& p = m.pages[pi];
  if (p->rc > 1) { Page* q = new Page(*p); q->rc = 1; for (int i = 0; i < PGSZ; ++i) if (q->o[i].d) ++q->o[i].d->rc; --p->rc; p = q; }
  return p;
}
Obj* Memory::getW(u32 id) { return &privPage(*this, id / PGSZ)->o[id % PGSZ]; }
MemData* Memory::dataW(u32 id) { Obj* o = getW(id); if (o->d->rc > 1) { MemData* n = cloneData(o->d); --o->d->rc; o->d = n; } return o->d; }
u32 Memory::alloc(u64 size, OKind k, bool zero) {
  u32 id = next++; u32 pi = id / PGSZ;
  if (pi >= pages.size()) pages.resize(pi + 1, nullptr);
  if (!pages[pi]) { pages[pi] = new Page; memset((void*)pages[pi], 0, sizeof(Page)); pages[pi]->rc = 1; }
  Page* p = privPage(*this, pi); Obj& o = p->o[id % PGSZ]; ++p->live;
  o.d = k == K_FUNC ? nullptr : newData(size, zero); o.size = (u32)size; o.kind = k; o.live = 1; o.tag = 0;
  return id;
}
void Memory::freeObj(u32 id) {
  u32 pi = id / PGSZ; Page* p = privPage(*this, pi); Obj& o = p->o[id % PGSZ];
  relData(o.d); o.d = nullptr; o.live = 0;
  if (--p->live == 0 && (pi + 1) * (u64)PGSZ <= next) { relPage(p); pages[pi] = nullptr; }
}

// ---------------------------------------------------------------- module
static LLVMContext Ctx; static std::unique_ptr<Module> Mod; static const DataLayout* DL;
static std::map<const GlobalValue*, u64> gaddr;
static std::vector<FuncInfo*> funcById; // object id -> function
static std::map<const Function*, FuncInfo*> finfo;
static State* initState;

static int nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += nslots(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * nslots(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * nslots(v->getElementType());
  return 1;
}
static int scalarW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 64;
  std::string s; raw_string_ostream o(s); t->print(o); fprintf(stderr, "osym: unsupported type %s\n", s.c_str()); exit(3);
}
static void flatW(Type* t, std::vector<u16>& out) {
  if (t->isVoidTy()) return;
  if (auto* s = dyn_cast<StructType>(t)) { for (auto* e : s->elements()) flatW(e, out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); ++i) flatW(a->getElementType(), out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) flatW(v->getElementType(), out); return; }
  out.push_back(scalarW(t));
}
static void pieces(Type* t, u32 off, std::vector<Piece>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) pieces(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) pieces(a->getElementType(), off + i * sz, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) pieces(v->getElementType(), off + i * sz, out); return; }
  out.push_back(Piece{off, (u16)scalarW(t), (u16)DL->getTypeStoreSize(t)});
}
static int aggIndex(Type* t, ArrayRef<unsigned> idx) {
  int off = 0;
  for (unsigned i : idx) {
    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += nslots(s->getElementType(k)); t = s->getElementType(i); }
    else { auto* a = cast<ArrayType>(t); off += i * nslots(a->getElementType()); t = a->getElementType(); }
  }
  return off;
}
static FuncInfo* getFI(const Function* F) { auto it = finfo.find(F); return it == finfo.end() ? nullptr : it->second; }

static u128 constScalar(const Constant* c);
static void flatConst(const Constant* c, std::vector<u128>& out) {
  Type* t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) { Constant* e = c->getAggregateElement(i); if (!e) { fprintf(stderr, "osym: odd constant\n"); exit(3); } flatConst(e, out); }
    return;
  }
  out.push_back(constScalar(c));
}
static u64 fpBits(const APFloat& f) { return f.bitcastToAPInt().getLimitedValue(); }
static u128 constScalar(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { const APInt& v = i->getValue(); u128 r = v.getRawData()[0]; if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64; return r; }
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isX86_FP80Ty()) { APInt v = f->getValueAPF().bitcastToAPInt(); return (u128)v.getRawData()[0] | (u128)v.getRawData()[1] << 64; } return fpBits(f->getValueAPF()); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantTokenNone>(c)) return 0;
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constScalar(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "osym: unknown global %s\n", g->getName().str().c_str()); exit(3); } return it->second; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(e); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "osym: gep constexpr\n"); exit(3); } return (u64)constScalar(cast<Constant>(g->getPointerOperand())) + off.getZExtValue(); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { u128 v = constScalar(e->getOperand(0)); if (e->getType()->isIntegerTy()) v &= maskw(e->getType()->getIntegerBitWidth()); return v; }
      case Instruction::Trunc: return constScalar(e->getOperand(0)) & maskw(e->getType()->getIntegerBitWidth());
      case Instruction::Add: return (constScalar(e->getOperand(0)) + constScalar(e->getOperand(1))) & maskw(e->getType()->getIntegerBitWidth());
      case Instruction::Sub: return (constScalar(e->getOperand(0)) - constScalar(e->getOperand(1))) & maskw(e->getType()->getIntegerBitWidth());
      case Instruction::ICmp: { u128 a = constScalar(e->getOperand(0)), b = constScalar(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } }
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); fprintf(stderr, "osym: unsupported constant %s\n", s.c_str()); exit(3);
}
static void initBytes(const Constant* c, uint8_t* p) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) initBytes(c->getAggregateElement(i), p + L->getElementOffset(i)); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) initBytes(c->getAggregateElement(i), p + i * sz); return; }
  u128 v = constScalar(c); memcpy(p, &v, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- decoding
static std::vector<Val> cpool; static std::map<std::pair<u128, int>, int> cpoolIdx;
static int constOp(u128 v, int w) {  // negative operand index
  auto k = std::make_pair(v, w); auto it = cpoolIdx.find(k); if (it != cpoolIdx.end()) return it->second;
  Val x; if (w <= 64) x = VC((u64)v); else x = Val{0, EM.cst(v, w)};
  cpool.push_back(x); int i = -(int)cpool.size(); cpoolIdx[k] = i; return i;
}
static bool matchPats(const std::string& n, const std::vector<std::string>& p) { for (auto& x : p) if (n.find(x) != std::string::npos) return true; return false; }

static void decode(FuncInfo* fi) {
  Function& F = *fi->F; fi->decoded = true;
  std::map<const Value*, int> slot; int ns = 0;
  auto newSlots = [&](const Value* v) { slot[v] = ns; flatW(v->getType(), fi->slotW); ns = fi->slotW.size(); };
  for (auto& a : F.args()) { fi->argSlots.push_back(ns); newSlots(&a); }
  fi->nargslots = ns;
  for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) newSlots(&I);
  std::map<const BasicBlock*, int> bidx; { int i = 0; for (auto& B : F) bidx[&B] = i++; }
  fi->blockStart.assign(bidx.size(), 0);
  auto ops = [&](const Value* v) -> std::vector<int> {
    std::vector<int> r;
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<u128> vals; std::vector<u16> ws; flatW(v->getType(), ws); flatConst(c, vals); for (size_t i = 0; i < vals.size(); ++i) r.push_back(constOp(vals[i], ws[i])); return r; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { r.push_back(constOp(0, 64)); return r; }
    auto it = slot.find(v); if (it == slot.end()) { fprintf(stderr, "osym: no slot\n"); exit(3); }
    int n = nslots(v->getType()); for (int i = 0; i < n; ++i) r.push_back(it->second + i); return r;
  };
  auto op1 = [&](const Value* v) { auto r = ops(v); return r.empty() ? constOp(0, 64) : r[0]; };
  PostDominatorTree PDT; PDT.recalculate(F);
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.bb = bidx[to]; e.target = -1;
    for (auto& P : to->phis()) { auto src = ops(P.getIncomingValueForBlock(from)); int d = slot[&P]; for (size_t i = 0; i < src.size(); ++i) if (src[i] != d + (int)i) e.moves.push_back({src[i], d + (int)i}); }
    return e;
  };
  for (auto& B : F) {
    fi->blockStart[bidx[&B]] = fi->code.size();
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.I = &I; in.dst = slot.count(&I) ? slot[&I] : -1;
      auto push = [&](Inst& x) { fi->code.push_back(x); };
      Type* T = I.getType();
      bool vec = T->isVectorTy();
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        switch (bo->getOpcode()) {
          case Instruction::Add: in.op = I_ADD; break; case Instruction::Sub: in.op = I_SUB; break; case Instruction::Mul: in.op = I_MUL; break;
          case Instruction::UDiv: in.op = I_UDIV; break; case Instruction::SDiv: in.op = I_SDIV; break; case Instruction::URem: in.op = I_UREM; break; case Instruction::SRem: in.op = I_SREM; break;
          case Instruction::Shl: in.op = I_SHL; break; case Instruction::LShr: in.op = I_LSHR; break; case Instruction::AShr: in.op = I_ASHR; break;
          case Instruction::And: in.op = I_AND; break; case Instruction::Or: in.op = I_OR; break; case Instruction::Xor: in.op = I_XOR; break;
          case Instruction::FAdd: in.op = I_FADD; break; case Instruction::FSub: in.op = I_FSUB; break; case Instruction::FMul: in.op = I_FMUL; break; case Instruction::FDiv: in.op = I_FDIV; break; case Instruction::FRem: in.op = I_FREM; break;
          default: fprintf(stderr, "osym: binop\n"); exit(3);
        }
        auto a = ops(bo->getOperand(0)), b = ops(bo->getOperand(1)); int d = in.dst;
        in.w = scalarW(T->getScalarType());
        for (size_t i = 0; i < a.size(); ++i) { in.a = a[i]; in.b = b[i]; in.dst = d + i; push(in); }
        continue;
      }
      if (auto* u = dyn_cast<UnaryOperator>(&I)) { in.op = I_FNEG; auto a = ops(u->getOperand(0)); int d = in.dst; in.w = scalarW(T->getScalarType()); for (size_t i = 0; i < a.size(); ++i) { in.a = a[i]; in.dst = d + i; push(in); } continue; }
      if (auto* c = dyn_cast<CmpInst>(&I)) {
        in.op = isa<ICmpInst>(c) ? I_ICMP : I_FCMP; in.sub = c->getPredicate(); in.w = scalarW(c->getOperand(0)->getType()->getScalarType());
        auto a = ops(c->getOperand(0)), b = ops(c->getOperand(1)); int d = in.dst;
        for (size_t i = 0; i < a.size(); ++i) { in.a = a[i]; in.b = b[i]; in.dst = d + i; push(in); }
        continue;
      }
      if (auto* c = dyn_cast<CastInst>(&I)) {
        auto a = ops(c->getOperand(0)); int d = in.dst;
        in.w = scalarW(T->getScalarType()); in.w2 = scalarW(c->getSrcTy()->getScalarType());
        switch (c->getOpcode()) {
          case Instruction::ZExt: in.op = I_ZEXT; break; case Instruction::SExt: in.op = I_SEXT; break; case Instruction::Trunc: in.op = I_TRUNC; break;
          case Instruction::FPExt: in.op = I_FPEXT; break; case Instruction::FPTrunc: in.op = I_FPTRUNC; break;
          case Instruction::SIToFP: in.op = I_SITOFP; break; case Instruction::UIToFP: in.op = I_UITOFP; break; case Instruction::FPToSI: in.op = I_FPTOSI; break; case Instruction::FPToUI: in.op = I_FPTOUI; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: in.op = in.w < in.w2 ? I_TRUNC : in.w > in.w2 ? I_ZEXT : I_MOV; break;
          case Instruction::BitCast: in.op = I_MOV; if (nslots(T) != (int)a.size()) {
              // scalar <-> vector
              if (a.size() == 1) { int n = nslots(T); for (int i = 0; i < n; ++i) { Inst x = in; x.op = I_LSHR; x.a = a[0]; x.b = constOp((u128)i * in.w, in.w2); x.w = in.w2; x.dst = d + i; push(x); Inst y = in; y.op = I_TRUNC; y.a = d + i; y.dst = d + i; push(y); } continue; }
              fprintf(stderr, "osym: vector bitcast in %s\n", fi->name.c_str()); exit(3); }
            break;
          default: in.op = I_MOV;
        }
        for (size_t i = 0; i < a.size(); ++i) { in.a = a[i]; in.dst = d + i; push(in); }
        continue;
      }
      if (auto* s = dyn_cast<SelectInst>(&I)) {
        auto c = ops(s->getCondition()), a = ops(s->getTrueValue()), b = ops(s->getFalseValue()); int d = in.dst; in.op = I_SELECT;
        std::vector<u16> ws; flatW(T, ws);
        for (size_t i = 0; i < a.size(); ++i) { in.c = c.size() == a.size() ? c[i] : c[0]; in.a = a[i]; in.b = b[i]; in.w = ws[i]; in.dst = d + i; in.isFP = T->isDoubleTy(); push(in); }
        continue;
      }
      if (auto* l = dyn_cast<LoadInst>(&I)) { in.op = I_LOAD; in.a = op1(l->getPointerOperand()); in.pieces = new std::vector<Piece>; pieces(T, 0, *in.pieces); push(in); continue; }
      if (auto* s = dyn_cast<StoreInst>(&I)) { in.op = I_STORE; in.a = op1(s->getPointerOperand()); in.pieces = new std::vector<Piece>; pieces(s->getValueOperand()->getType(), 0, *in.pieces); in.call = new CallInfo; in.call->args = ops(s->getValueOperand()); push(in); continue; }
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        if (vec) { fprintf(stderr, "osym: vector gep\n"); exit(3); }
        in.op = I_GEP; in.a = op1(g->getPointerOperand()); in.imm = 0;
        for (auto ti = gep_type_begin(*g), te = gep_type_end(*g); ti != te; ++ti) {
          const Value* ix = ti.getOperand();
          if (StructType* st = ti.getStructTypeOrNull()) { in.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sz = DL->getTypeAllocSize(ti.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { in.imm += sz * ci->getSExtValue(); continue; }
          if (!in.gep) in.gep = new std::vector<std::pair<int, i64>>;
          in.gep->push_back({op1(ix), sz}); in.w2 = scalarW(ix->getType());
          if (in.w2 != 64) { fprintf(stderr, "osym: gep index width %d\n", in.w2); }
        }
        push(in); continue;
      }
      if (auto* a = dyn_cast<AllocaInst>(&I)) { in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(a->getAllocatedType()); in.a = op1(a->getArraySize()); in.w = scalarW(a->getArraySize()->getType()); push(in); continue; }
      if (auto* b = dyn_cast<BranchInst>(&I)) {
        in.edges = new std::vector<Edge>;
        if (b->isUnconditional()) { in.op = I_BR; in.edges->push_back(mkEdge(&B, b->getSuccessor(0))); }
        else { in.op = I_CONDBR; in.a = op1(b->getCondition()); in.edges->push_back(mkEdge(&B, b->getSuccessor(0))); in.edges->push_back(mkEdge(&B, b->getSuccessor(1)));
          auto* n = PDT.getNode(&B); if (n && n->getIDom() && n->getIDom()->getBlock()) in.ipdom = bidx[n->getIDom()->getBlock()]; }
        push(in); continue;
      }
      if (auto* s = dyn_cast<SwitchInst>(&I)) {
        in.op = I_SWITCH; in.a = op1(s->getCondition()); in.w = scalarW(s->getCondition()->getType()); in.edges = new std::vector<Edge>; in.cases = new std::vector<u64>;
        in.edges->push_back(mkEdge(&B, s->getDefaultDest()));
        for (auto& c : s->cases()) { in.cases->push_back(c.getCaseValue()->getZExtValue()); in.edges->push_back(mkEdge(&B, c.getCaseSuccessor())); }
        push(in); continue;
      }
      if (auto* r = dyn_cast<ReturnInst>(&I)) { in.op = I_RET; in.call = new CallInfo; if (r->getReturnValue()) in.call->args = ops(r->getReturnValue()); push(in); continue; }
      if (isa<UnreachableInst>(&I)) { in.op = I_UNREACHABLE; push(in); continue; }
      if (auto* c = dyn_cast<CallBase>(&I)) {
        in.op = I_CALL; in.call = new CallInfo; in.call->nret = nslots(T);
        if (c->isInlineAsm()) { in.op = I_NOP; push(in); continue; }
        if (auto* ii = dyn_cast<IntrinsicInst>(c)) {
          auto id = ii->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::sideeffect || id == Intrinsic::invariant_end || id == Intrinsic::var_annotation || id == Intrinsic::assume || id == Intrinsic::prefetch) continue;
          if (id == Intrinsic::expect || id == Intrinsic::launder_invariant_group || id == Intrinsic::strip_invariant_group || id == Intrinsic::expect_with_probability || id == Intrinsic::annotation) { in.op = I_MOV; in.a = op1(c->getArgOperand(0)); push(in); continue; }
        }
        for (unsigned i = 0; i < c->arg_size(); ++i) {
          in.call->argBase.push_back(in.call->args.size());
          auto o = ops(c->getArgOperand(i)); std::vector<u16> ws; 
          if (isa<MetadataAsValue>(c->getArgOperand(i))) ws.push_back(64); else flatW(c->getArgOperand(i)->getType(), ws);
          for (size_t k = 0; k < o.size(); ++k) { in.call->args.push_back(o[k]); in.call->argW.push_back(ws[k]); }
          in.call->byval.push_back(c->isByValArgument(i) ? (u32)DL->getTypeAllocSize(c->getParamByValType(i)) : 0);
        }
        in.call->nFixed = c->getFunctionType()->getNumParams();
        const Value* cv = c->getCalledOperand()->stripPointerCasts();
        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto* cf = dyn_cast<Function>(cv)) in.call->callee = getFI(cf); else in.call->calleeOp = op1(c->getCalledOperand());
        if (auto* inv = dyn_cast<InvokeInst>(c)) { in.call->invoke = true; in.call->normal = mkEdge(&B, inv->getNormalDest()); in.call->unwind = mkEdge(&B, inv->getUnwindDest()); }
        in.w = T->isVoidTy() || nslots(T) != 1 ? 0 : scalarW(T->getScalarType());
        push(in); continue;
      }
      if (auto* e = dyn_cast<ExtractValueInst>(&I)) { auto a = ops(e->getAggregateOperand()); int o = aggIndex(e->getAggregateOperand()->getType(), e->getIndices()); int n = nslots(T); int d = in.dst; in.op = I_MOV; for (int i = 0; i < n; ++i) { in.a = a[o + i]; in.dst = d + i; push(in); } continue; }
      if (auto* e = dyn_cast<InsertValueInst>(&I)) { auto a = ops(e->getAggregateOperand()), v = ops(e->getInsertedValueOperand()); int o = aggIndex(T, e->getIndices()); int d = in.dst; in.op = I_MOV; for (size_t i = 0; i < a.size(); ++i) { in.a = ((int)i >= o && (int)i < o + (int)v.size()) ? v[i - o] : a[i]; in.dst = d + i; push(in); } continue; }
      if (auto* e = dyn_cast<ExtractElementInst>(&I)) { auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand()); if (!ci) { fprintf(stderr, "osym: extractelement\n"); exit(3); } auto a = ops(e->getVectorOperand()); in.op = I_MOV; in.a = a[ci->getZExtValue()]; push(in); continue; }
      if (auto* e = dyn_cast<InsertElementInst>(&I)) { auto* ci = dyn_cast<ConstantInt>(e->getOperand(2)); if (!ci) { fprintf(stderr, "osym: insertelement\n"); exit(3); } auto a = ops(e->getOperand(0)); int v = op1(e->getOperand(1)); int d = in.dst; in.op = I_MOV; for (size_t i = 0; i < a.size(); ++i) { in.a = i == ci->getZExtValue() ? v : a[i]; in.dst = d + i; push(in); } continue; }
      if (auto* e = dyn_cast<ShuffleVectorInst>(&I)) { auto a = ops(e->getOperand(0)), b = ops(e->getOperand(1)); int d = in.dst; in.op = I_MOV; auto m = e->getShuffleMask(); for (size_t i = 0; i < m.size(); ++i) { in.a = m[i] < 0 ? a[0] : m[i] < (int)a.size() ? a[m[i]] : b[m[i] - a.size()]; in.dst = d + i; push(in); } continue; }
      if (auto* f = dyn_cast<FreezeInst>(&I)) { auto a = ops(f->getOperand(0)); int d = in.dst; in.op = I_MOV; for (size_t i = 0; i < a.size(); ++i) { in.a = a[i]; in.dst = d + i; push(in); } continue; }
      if (isa<LandingPadInst>(&I)) { in.op = I_LANDINGPAD; push(in); continue; }
      if (auto* r = dyn_cast<ResumeInst>(&I)) { in.op = I_RESUME; in.a = ops(r->getValue())[0]; push(in); continue; }
      if (auto* a = dyn_cast<AtomicRMWInst>(&I)) { in.op = I_ATOMICRMW; in.sub = a->getOperation(); in.a = op1(a->getPointerOperand()); in.b = op1(a->getValOperand()); in.w = scalarW(T); push(in); continue; }
      if (auto* a = dyn_cast<AtomicCmpXchgInst>(&I)) { in.op = I_CMPXCHG; in.a = op1(a->getPointerOperand()); in.b = op1(a->getCompareOperand()); in.c = op1(a->getNewValOperand()); in.w = scalarW(a->getCompareOperand()->getType()); push(in); continue; }
      if (isa<FenceInst>(&I)) continue;
      std::string s; raw_string_ostream o(s); I.print(o); fprintf(stderr, "osym: unsupported instruction %s in %s\n", s.c_str(), fi->name.c_str()); exit(3);
    }
  }
  fi->nslots = ns;
  for (auto& in : fi->code) {
    if (in.edges) for (auto& e : *in.edges) e.target = fi->blockStart[e.bb];
    if (in.call && in.call->invoke) { in.call->normal.target = fi->blockStart[in.call->normal.bb]; in.call->unwind.target = fi->blockStart[in.call->unwind.bb]; }
  }
  fi->doMerge = (mergeAll || matchPats(fi->name, mergePats)) && !matchPats(fi->name, noMergePats);
}

// ---------------------------------------------------------------- execution support
static bool forkOff = false;
struct MergeAbort { const char* why; };
static int mergeDepth = 0;
static std::deque<State*> work;
struct StopCond { int thread; size_t depth; int bb; u64 maxSteps; };
enum { B_OK, B_END, B_CTRL, B_RETRY };
enum RunRes { RUN_DONE, RUN_STOP };

static Val mkV(Expr* e) { if (e->op == O_CONST && e->w <= 64) return VC((u64)e->c); return Val{0, e}; }
static inline Expr* toE(Val v, int w) { return v.e ? v.e : EM.cst(v.c, w); }
static std::string where(State& s) {
  std::string r; auto& st = s.th[s.cur].st;
  int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < 10; --i, ++n) {
    Frame& f = st[i]; r += (r.empty() ? "" : " <- ") + f.f->name;
    int pc = f.pc; if (pc < (int)f.f->code.size()) if (const DILocation* L = f.f->code[pc].I->getDebugLoc()) r += "(" + L->getFilename().str().substr(L->getFilename().str().rfind('/') == std::string::npos ? 0 : L->getFilename().str().rfind('/') + 1) + ":" + std::to_string(L->getLine()) + ")";
  }
  return r;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static std::string inputsJson(State& s, const Assign& m) {
  std::string r = "[";
  bool first = true;
  for (auto v : s.inputs) { VarInfo& vi = EM.vars[v]; char b[400]; snprintf(b, 400, "%s[\"%s\",%d,%llu,%d]", first ? "" : ",", jesc(vi.name).c_str(), vi.width, (unsigned long long)m.get(v), vi.kind); r += b; first = false; }
  return r + "]";
}
static bool stopNow() {
  if (SH->stop.load(std::memory_order_relaxed)) return true;
  return false;
}
static void incomplete(State* s, const std::string& why) {
  SH->incomplete++;
  fprintf(outF, "{\"t\":\"incomplete\",\"why\":\"%s\",\"where\":\"%s\"}\n", jesc(why).c_str(), s ? jesc(where(*s)).c_str() : ""); fflush(outF);
}
// model is a witness
static void violation(State& s, const std::string& kind, const std::string& msg, const Assign& m) {
  if (mergeDepth) throw MergeAbort{"violation"};
  std::string w = where(s);
  std::string key = kind + "|" + msg + "|" + (kind == "ASSERT" ? "" : w.substr(0, 200));
  if (!seenViol.insert(key).second) return;
  std::string notes = "[";
  for (size_t i = 0; i < s.notes.size(); ++i) { u64 v = s.notes[i].second.e ? (u64)EM.eval(s.notes[i].second.e, m) : s.notes[i].second.c; notes += (i ? "," : "") + std::string("[\"") + jesc(s.notes[i].first) + "\"," + std::to_string((i64)v) + "]"; }
  notes += "]";
  fprintf(outF, "{\"t\":\"violation\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s,\"notes\":%s}\n", kind.c_str(), jesc(msg).c_str(), jesc(w).c_str(), inputsJson(s, m).c_str(), notes.c_str()); fflush(outF);
  if (++SH->nviol >= maxViol) SH->stop = 1;
}
static void addPC(State& s, Expr* c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (c->op == O_XOR && c->k[1]->op == O_CONST && c->k[0]->op == O_OR) { addPC(s, EM.lnot(c->k[0]->k[0])); addPC(s, EM.lnot(c->k[0]->k[1])); return; }
  for (Expr* e : s.pc) if (e == c) return;
  s.pc.push_back(c);
}
// 0: false, 1: true, 2: both (otherModel satisfies the side the state's own model does not), 3: unknown (own side only)
static int decide(State& s, Expr* c, bool& own, Assign& other) {
  if (c->op == O_CONST) return c->c ? 1 : 0;
  Expr* n = EM.lnot(c);
  for (Expr* e : s.pc) { if (e == c) return 1; if (e == n) return 0; }
  { int r = EM.polyImplied(s.pc, c); if (r >= 0) return r; }
  own = EM.eval(c, s.model) != 0;
  other = s.model;
  if (nowS() - tStart > timeLimit && !SH->stop.exchange(1)) incomplete(&s, "time limit reached");
  Res r = SV.check(s.pc, own ? n : c, other);
  if (r == R_UNSAT) return own ? 1 : 0;
  if (r == R_UNKNOWN) return 3;
  return 2;
}
static void pushState(State* n);
static void forkOther(State& s, Expr* otherCond, const Assign& om) {
  if (mergeDepth) throw MergeAbort{"fork"};
  State* n = new State(s); n->model = om; addPC(*n, otherCond); ++n->depth; SH->forks++;
  pushState(n);
}
// take one side of a condition, forking the other one off to retry the current instruction
static bool branchOn(State& s, Expr* c) {
  bool own; Assign om; int r = decide(s, c, own, om);
  if (r <= 1) return r;
  SH->symBranches++;
  if (r == 3) { incomplete(&s, "solver gave no answer on a branch: " + toStr(c, 4)); return own; }
  forkOther(s, own ? EM.lnot(c) : c, om);
  addPC(s, own ? c : EM.lnot(c)); ++s.depth;
  return own;
}
static u64 concretize(State& s, Val v, int w) {
  if (!v.e) return v.c;
  u64 x = (u64)EM.eval(v.e, s.model);
  Expr* c = EM.eq(v.e, EM.cst(x, w));
  branchOn(s, c);  // own model satisfies c
  addPC(s, c);  // also when implied: later lookups see it directly
  return x;
}
static Expr* mkVar(State& s, const std::string& base, int w, bool fp, bool hasR, i64 lo, i64 hi, int kind) {
  static std::map<std::string, Expr*> tab;
  int o = s.occ[base]++;
  std::string nm = base + "#" + std::to_string(o);
  std::string key = nm + "|" + std::to_string(w) + "|" + std::to_string(hasR) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  auto it = tab.find(key); Expr* e;
  if (it != tab.end()) e = it->second; else { e = EM.var(nm, w, fp, hasR, lo, hi, kind); tab[key] = e; }
  s.inputs.push_back(e->aux);
  return e;
}

// ---- byte level access (concrete object + offset)
static Val loadC(State& s, u32 id, u32 off, int bytes, int w) {
  Obj* o = s.mem.get(id); MemData* d = o->d;
  bool sym = false;
  if (d->s || d->un) for (int i = 0; i < bytes; ++i) if ((d->s && d->s[off + i].e) || (d->un && d->un[off + i])) { sym = true; break; }
  if (!sym) {
    if (w <= 64) { u64 v = 0; memcpy(&v, d->c + off, bytes); return VC(w < 64 ? v & (((u64)1 << w) - 1) : v); }
    u128 v = 0; memcpy(&v, d->c + off, bytes); return Val{0, EM.cst(v, w)};
  }
  if (d->un) {
    int nu = 0; for (int i = 0; i < bytes; ++i) nu += d->un[off + i];
    if (nu) {
      d = s.mem.dataW(id);
      if (!d->s) d->s = (SymB*)calloc(d->size, sizeof(SymB));
      // contiguous runs of uninitialised bytes become fresh variables
      for (int i = 0; i < bytes;) {
        if (!d->un[off + i]) { ++i; continue; }
        int j = i; while (j < bytes && d->un[off + j] && j - i < 8) ++j;
        Expr* v = mkVar(s, "uninit", (j - i) * 8, false, false, 0, 0, 1); ++s.uninitCnt;
        for (int k = i; k < j; ++k) { d->s[off + k] = SymB{v, (u32)(k - i)}; d->un[off + k] = 0; }
        i = j;
      }
    }
  }
  SymB& b0 = d->s[off];
  if (b0.e && b0.idx == 0 && b0.e->w == bytes * 8) {
    bool whole = true; for (int i = 1; i < bytes; ++i) if (d->s[off + i].e != b0.e || (int)d->s[off + i].idx != i) { whole = false; break; }
    if (whole) return mkV(w < bytes * 8 ? EM.extract(b0.e, 0, w) : b0.e);
  }
  Expr* r = nullptr;
  for (int i = 0; i < bytes;) {
    Expr* p; int n = 1;
    if (d->s[off + i].e) { SymB q = d->s[off + i]; while (i + n < bytes && d->s[off + i + n].e == q.e && d->s[off + i + n].idx == q.idx + n) ++n; p = EM.extract(q.e, q.idx * 8, n * 8); }
    else { while (i + n < bytes && !d->s[off + i + n].e) ++n; u128 v = 0; memcpy(&v, d->c + off + i, n); p = EM.cst(v, n * 8); }
    r = r ? EM.concat(p, r) : p; i += n;
  }
  if (w < bytes * 8) r = EM.extract(r, 0, w);
  return mkV(r);
}
static void storeC(State& s, u32 id, u32 off, int bytes, int w, Val v) {
  MemData* d = s.mem.dataW(id);
  if (!v.e || v.e->op == O_CONST) {
    u128 x = v.e ? v.e->c : v.c; memcpy(d->c + off, &x, bytes);
    if (d->s) memset((void*)(d->s + off), 0, bytes * sizeof(SymB));
  } else {
    if (!d->s) d->s = (SymB*)calloc(d->size ? d->size : 1, sizeof(SymB));
    Expr* e = v.e; if (e->w < bytes * 8) e = EM.zext(e, bytes * 8);
    if (e->op == O_CONCAT && e->k[1]->w % 8 == 0) {  // keep the parts whole
      int lb = e->k[1]->w / 8;
      if (d->un) memset(d->un + off, 0, bytes);
      storeC(s, id, off, lb, lb * 8, mkV(e->k[1])); storeC(s, id, off + lb, bytes - lb, (bytes - lb) * 8, mkV(e->k[0])); return;
    }
    if (e->op == O_EXTRACT && e->aux % 8 == 0 && e->k[0]->w % 8 == 0) { for (int i = 0; i < bytes; ++i) d->s[off + i] = SymB{e->k[0], (u32)(i + e->aux / 8)}; }
    else for (int i = 0; i < bytes; ++i) d->s[off + i] = SymB{e, (u32)i};
  }
  if (d->un) memset(d->un + off, 0, bytes);
}

static const char* okind(uint8_t k) { return k == K_HEAP ? "heap" : k == K_STACK ? "stack" : k == K_GLOBAL ? "global" : k == K_CONST ? "constant" : "function"; }
static int pathEnd(State& s) { return B_END; }
// checks a concrete access; returns nullptr when fine, else an error message
static const char* accessErr(State& s, u64 a, u64 n, bool write, u32& id, u32& off) {
  id = a >> 32; i64 o = (i64)(a & 0xffffffffull) - (i64)OBASE; off = (u32)o;
  if (id == 0) return "null or wild pointer dereference";
  if (id >= s.mem.next) return "wild pointer dereference";
  Obj* ob = s.mem.get(id);
  if (!ob || !ob->live) return "use after free (or after return)";
  if (ob->kind == K_FUNC) return "access to function";
  if (o < 0 || (u64)o + n > ob->size) return "out-of-bounds access";
  if (write && ob->kind == K_CONST) return "write to constant";
  return nullptr;
}
static bool leaves(Expr* e, Expr* cond, std::vector<std::pair<Expr*, u64>>& out, int cap) {
  if (e->op == O_CONST) { out.push_back({cond, (u64)e->c}); return (int)out.size() <= cap; }
  if (e->op == O_ITE) return leaves(e->k[1], EM.land(cond, e->k[0]), out, cap) && leaves(e->k[2], EM.land(cond, EM.lnot(e->k[0])), out, cap);
  return false;
}
struct Acc { u32 id; bool sym; u32 off; Expr* offE; std::vector<std::pair<Expr*, std::pair<u32, u32>>> lv; };
// resolve an address; B_OK or B_END
// int -> double; when the path condition keeps the value within 53 bits the conversion is exact
static Expr* intToFP(State& s, Op op, Expr* a, int w) {
  Expr* r = EM.f1(op, a, w);
  if (r->op != op || w != 64 || a->w != 64 || !EM.intFP) return r;
  i64 L = (i64)1 << 53; i64 cur = (i64)EM.eval(a, s.model); if (cur < -L || cur >= L || (op == O_UITOFP && cur < 0)) return r;
  Expr* in = op == O_SITOFP ? EM.cmp(O_ULT, EM.bin(O_ADD, a, EM.cst((u64)L, 64)), EM.cst((u64)L * 2, 64)) : EM.cmp(O_ULT, a, EM.cst((u64)L, 64));
  Assign m = s.model; if (SV.check(s.pc, EM.lnot(in), m) != R_UNSAT) return r;
  return EM.f1(O_SITOFP, op == O_SITOFP ? EM.sext(EM.extract(a, 0, 54), 64) : EM.zext(EM.extract(a, 0, 53), 64), w);
}
static int resolve(State& s, Val a, u64 n, bool write, Acc& r, const char* what) {
  r.sym = false; r.lv.clear();
  if (!a.e) {
    const char* e = accessErr(s, a.c, n, write, r.id, r.off);
    if (!e) return B_OK;
    Obj* ob = s.mem.get(r.id); char b[200]; snprintf(b, 200, "%s (%s of %llu bytes at offset %lld of %s object of size %u)", e, what, (unsigned long long)n, (long long)(i64)(int)r.off, ob ? okind(ob->kind) : "?", ob ? ob->size : 0);
    violation(s, "MEMORY", b, s.model); return pathEnd(s);
  }
  // pointer chosen among a few concrete addresses
  std::vector<std::pair<Expr*, u64>> lv;
  if (leaves(a.e, EM.T, lv, 24)) {
    bool ok = true;
    for (auto& l : lv) {
      u32 id, off; const char* e = accessErr(s, l.second, n, write, id, off);
      if (e) {
        Assign m = s.model; Res q = SV.check(s.pc, l.first, m);
        if (q == R_UNSAT) continue;
        if (q == R_UNKNOWN) { incomplete(&s, "solver gave no answer on a pointer"); continue; }
        if (mergeDepth) throw MergeAbort{"mem"};
        violation(s, "MEMORY", std::string(e) + " through a selected pointer", m); 
        bool own = branchOn(s, EM.lnot(l.first)); if (!own) return pathEnd(s);
        ok = true; continue;
      }
      r.lv.push_back({l.first, {id, off}});
    }
    (void)ok;
    if (r.lv.empty()) return pathEnd(s);
    r.sym = true; return B_OK;
  }
  u64 av = (u64)EM.eval(a.e, s.model);
  const char* e = accessErr(s, av, n, write, r.id, r.off);
  if (e) {
    Obj* ob = s.mem.get(r.id); char b[200]; snprintf(b, 200, "%s (%s of %llu bytes at offset %lld of %s object of size %u)", e, what, (unsigned long long)n, (long long)(i64)(int)r.off, ob ? okind(ob->kind) : "?", ob ? ob->size : 0);
    violation(s, "MEMORY", b, s.model);
    if (mergeDepth) throw MergeAbort{"mem"};
    return pathEnd(s);
  }
  Obj* ob = s.mem.get(r.id); u64 base = addrOf(r.id);
  Expr* off = EM.bin(O_SUB, a.e, EM.cst(base, 64));
  Range rg = EM.range(off);
  if (!(rg.uhi <= ob->size - n)) {
    Expr* in = EM.cmp(O_ULE, off, EM.cst(ob->size - n, 64));
    if (!branchOn(s, in)) return pathEnd(s);  // own model is in bounds
    rg = EM.range(off);
  }
  u64 hi = std::min<u64>(rg.uhi, ob->size - n), lo = rg.ulo > hi ? 0 : rg.ulo;
  int tz = EM.trailingZeros(off); u64 step = tz >= 16 ? 65536 : (u64)1 << tz;
  lo = (lo + step - 1) / step * step;
  u64 cnt = hi >= lo ? (hi - lo) / step + 1 : 0;
  if (cnt > maxIte) { u64 o = concretize(s, Val{0, off}, 64); r.off = (u32)o; return B_OK; }
  if (cnt > 8) {  // narrow with the solver: is the range really that wide?
    Assign m;
    while (hi > lo) { u64 mid = lo + (hi - lo) / 2 / step * step; m = s.model; u64 cur = (u64)EM.eval(off, s.model); if (cur > mid) break; Res q = SV.check(s.pc, EM.cmp(O_ULT, EM.cst(mid, 64), off), m); if (q != R_UNSAT) break; hi = mid; }
  }
  if (hi == lo) { r.off = (u32)lo; return B_OK; }
  r.sym = true;
  for (u64 o = lo; o <= hi; o += step) r.lv.push_back({EM.eq(off, EM.cst(o, 64)), {r.id, (u32)o}});
  return B_OK;
}
static Val loadA(State& s, Acc& r, u32 extra, int bytes, int w) {
  if (!r.sym) return loadC(s, r.id, r.off + extra, bytes, w);
  Expr* res = nullptr;
  for (size_t i = r.lv.size(); i-- > 0;) {
    if (r.lv[i].first->op == O_CONST && !r.lv[i].first->c) continue;
    Expr* v = toE(loadC(s, r.lv[i].second.first, r.lv[i].second.second + extra, bytes, w), w);
    res = res ? EM.ite(r.lv[i].first, v, res) : v;
  }
  return mkV(res);
}
static void storeA(State& s, Acc& r, u32 extra, int bytes, int w, Val v) {
  if (!r.sym) { storeC(s, r.id, r.off + extra, bytes, w, v); return; }
  for (auto& l : r.lv) {
    if (l.first->op == O_CONST && !l.first->c) continue;
    Expr* old = toE(loadC(s, l.second.first, l.second.second + extra, bytes, w), w);
    storeC(s, l.second.first, l.second.second + extra, bytes, w, mkV(EM.ite(l.first, toE(v, w), old)));
  }
}
static int readCStr(State& s, Val p, std::string& out) {
  u64 a = concretize(s, p, 64);
  for (int i = 0; i < 4096; ++i) { Acc r; int e = resolve(s, VC(a + i), 1, false, r, "string read"); if (e != B_OK) return e; Val c = loadC(s, r.id, r.off, 1, 8); u64 x = concretize(s, c, 8); if (!x) return B_OK; out += (char)x; }
  return B_OK;
}
static int copyMem(State& s, u64 d, u64 src, u64 n) {
  if (!n) return B_OK;
  Acc a, b; int e = resolve(s, VC(src), n, false, b, "copy source"); if (e != B_OK) return e;
  e = resolve(s, VC(d), n, true, a, "copy destination"); if (e != B_OK) return e;
  MemData* dd = s.mem.dataW(a.id); MemData* sd = s.mem.get(b.id)->d;
  memmove(dd->c + a.off, sd->c + b.off, n);
  if (sd->s || dd->s) {
    if (!dd->s) dd->s = (SymB*)calloc(dd->size, sizeof(SymB));
    if (sd->s) memmove((void*)(dd->s + a.off), sd->s + b.off, n * sizeof(SymB)); else memset((void*)(dd->s + a.off), 0, n * sizeof(SymB));
  }
  if (sd->un || dd->un) {
    if (!dd->un) dd->un = (uint8_t*)calloc(dd->size, 1);
    if (sd->un) memmove(dd->un + a.off, sd->un + b.off, n); else memset(dd->un + a.off, 0, n);
  }
  return B_OK;
}

// ---------------------------------------------------------------- frames and control
static inline Val rd(Frame& f, int o) { return o >= 0 ? f.r[o] : cpool[-o - 1]; }
static bool takeEdge(State& s, Edge& e, StopCond* stop) {
  Frame& f = s.top();
  size_t n = e.moves.size();
  if (n == 1) f.r[e.moves[0].second] = rd(f, e.moves[0].first);
  else if (n) { static thread_local std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; ++i) tmp[i] = rd(f, e.moves[i].first); for (size_t i = 0; i < n; ++i) f.r[e.moves[i].second] = tmp[i]; }
  f.pc = e.target; f.bb = e.bb;
  return stop && stop->bb == e.bb && stop->thread == s.cur && s.th[s.cur].st.size() == stop->depth;
}
static void popFrame(State& s) {
  Frame& f = s.top();
  for (u32 a : f.allocas) s.mem.freeObj(a);
  s.th[s.cur].st.pop_back();
}
static FuncInfo* funcAt(u64 a) { u32 id = a >> 32; if ((a & 0xffffffff) != OBASE || id >= funcById.size()) return nullptr; return funcById[id]; }
static void pushFrame(State& s, FuncInfo* fi) {
  if (!fi->decoded) decode(fi);
  ++fi->calls;
  auto& st = s.th[s.cur].st;
  st.emplace_back(); Frame& f = st.back(); f.f = fi; f.pc = 0; f.r.assign(fi->nslots, VC(0));
}
#include "builtins.inc"

static bool finishCall(State& s, StopCond* stop) {  // after a call instruction completed: advance
  Frame& f = s.top(); Inst& in = f.f->code[f.pc];
  if (in.call->invoke) return takeEdge(s, in.call->normal, stop);
  ++f.pc; return false;
}

// unwinding ----------------------------------------------------------------
static bool typeMatches(State& s, u64 thrown, u64 want, u64& adj);
static int unwindTo(State& s) {  // s.curExc holds the exception header address; find a landing pad
  auto& st = s.th[s.cur].st;
  while (true) {
    if (st.empty()) return B_END;
    Frame& f = st.back(); Inst& in = f.f->code[f.pc];
    if (in.op == I_CALL && in.call->invoke) {
      // does the landing pad want it?
      Edge& u = in.call->unwind; Inst* lp = nullptr;
      for (int i = u.target; i < (int)f.f->code.size(); ++i) if (f.f->code[i].op == I_LANDINGPAD) { lp = &f.f->code[i]; break; }
      auto* L = cast<LandingPadInst>(lp->I); bool hit = L->isCleanup(); (void)hit;
      takeEdge(s, u, nullptr); return B_CTRL;
    }
    if (st.size() == 1) return B_END;
    popFrame(s);
  }
}
static Val loadVal(State& s, u64 a, int bytes) { Acc r; if (resolve(s, VC(a), bytes, false, r, "load") != B_OK) return VC(0); return loadA(s, r, 0, bytes, bytes * 8); }
static std::string globalNameAt(u64 a) { for (auto& g : gaddr) if (g.second == a) return g.first->getName().str(); return ""; }
static bool typeMatches(State& s, u64 thrown, u64 want, u64& adj) {
  if (want == 0 || thrown == want) return true;
  // std::type_info of the thrown type: look at its vtable to find the class kind
  std::string tn = globalNameAt(thrown), wn = globalNameAt(want);
  if (!tn.empty() && tn == wn) return true;
  u64 vt = loadVal(s, thrown, 8).c;
  std::string vn; for (auto& g : gaddr) if ((g.second >> 32) == (vt >> 32)) { vn = g.first->getName().str(); break; }
  if (vn.find("si_class_type_info") != std::string::npos) return typeMatches(s, loadVal(s, thrown + 16, 8).c, want, adj);
  if (vn.find("vmi_class_type_info") != std::string::npos) {
    u32 n = (u32)loadVal(s, thrown + 20, 4).c;
    for (u32 i = 0; i < n; ++i) { u64 b = loadVal(s, thrown + 24 + 16 * i, 8).c; i64 fl = (i64)loadVal(s, thrown + 32 + 16 * i, 8).c; u64 a2 = 0; if (!(fl & 1) && typeMatches(s, b, want, a2)) { adj = a2 + (fl >> 8); return true; } }
  }
  return false;
}

// ---------------------------------------------------------------- merging
static RunRes run(State& s, StopCond* stop);
static bool mergeMem(State& A, State& B, Expr* c, u32 oldNext) {
  size_t n = std::max(A.mem.pages.size(), B.mem.pages.size());
  A.mem.pages.resize(n, nullptr);
  for (size_t p = 0; p < n; ++p) {
    Page* pa = A.mem.pages[p]; Page* pb = p < B.mem.pages.size() ? B.mem.pages[p] : nullptr;
    if (pa == pb) continue;
    for (int i = 0; i < PGSZ; ++i) {
      u32 id = p * PGSZ + i;
      bool la = pa && pa->o[i].live, lb = pb && pb->o[i].live;
      if (la != lb) return false;
      if (!la) continue;
      if (id >= oldNext) return false;  // allocated on both sides under the same number: different objects
      Obj &oa = pa->o[i], &ob = pb->o[i];
      if (oa.d == ob.d) continue;
      if (oa.size != ob.size || oa.kind != ob.kind) return false;
      MemData *x = oa.d, *y = ob.d; u32 sz = oa.size;
      for (u32 k = 0; k < sz;) {
        auto same = [&](u32 j) { bool ux = x->un && x->un[j], uy = y->un && y->un[j]; if (ux && uy) return true; if (ux != uy) return false; Expr *ex = x->s ? x->s[j].e : nullptr, *ey = y->s ? y->s[j].e : nullptr; if (ex != ey) return false; if (ex) return x->s[j].idx == y->s[j].idx; return x->c[j] == y->c[j]; };
        if (same(k)) { ++k; continue; }
        // choose an aligned chunk
        u32 a8 = k & ~7u, len = 1, st = k;
        auto chunkOf = [&](MemData* m, u32 j) -> int { if (m->s && m->s[j].e && j >= m->s[j].idx) return (int)(m->s[j].e->w / 8); return 0; };
        int ca = chunkOf(x, k), cb = chunkOf(y, k); int want = std::max(ca, cb);
        if (want == 0) want = (a8 + 8 <= sz) ? ((k & 3) == 0 ? ((k & 7) == 0 ? 8 : 4) : 1) : 1;
        if (want == 8 && a8 + 8 <= sz) { st = a8; len = 8; } else if (want == 4 && (k & ~3u) + 4 <= sz) { st = k & ~3u; len = 4; } else if (want == 2 && (k & ~1u) + 2 <= sz) { st = k & ~1u; len = 2; }
        if (want == 0) { st = k; len = 1; }
        // uninitialised on one side: keep the initialised side's bytes one at a time
        bool un = false; for (u32 j = st; j < st + len; ++j) if ((x->un && x->un[j]) || (y->un && y->un[j])) un = true;
        bool allUnX = x->un != nullptr, allUnY = y->un != nullptr;
        for (u32 j = st; j < st + len; ++j) { if (!(x->un && x->un[j])) allUnX = false; if (!(y->un && y->un[j])) allUnY = false; }
        (void)un;
        Val va = allUnX ? Val{0, nullptr} : loadC(A, id, st, len, len * 8), vb = allUnY ? Val{0, nullptr} : loadC(B, id, st, len, len * 8);
        Expr *ea, *eb;
        if (allUnX) ea = mkVar(A, "uninit", len * 8, false, false, 0, 0, 1); else ea = toE(va, len * 8);
        if (allUnY) eb = mkVar(A, "uninit", len * 8, false, false, 0, 0, 1); else eb = toE(vb, len * 8);
        storeC(A, id, st, len, len * 8, mkV(EM.ite(c, ea, eb)));
        pa = A.mem.pages[p]; x = pa->o[i].d; y = B.mem.get(id)->d; pb = B.mem.pages[p];
        k = st + len;
      }
    }
  }
  return true;
}
static bool tryMerge(State& s, Inst& in, Expr* c) {
  Frame& f0 = s.top();
  if (!f0.f->doMerge || in.ipdom < 0) return false;
  static std::unordered_map<const Inst*, std::pair<int, int>> hist;  // failures, successes
  auto& h = hist[&in]; if (h.first > 6 && h.first > h.second) return false;
  StopCond st{s.cur, s.th[s.cur].st.size(), in.ipdom, 0};
  ++mergeDepth;
  State *A = nullptr, *B = nullptr; bool ok = false; 
  try {
    A = new State(s); B = new State(s);
    A->pc.push_back(c); B->pc.push_back(EM.lnot(c));
    // give each side a model of its own side when the current one does not fit
    bool own; Assign om; int r = decide(s, c, own, om);
    if (r != 2) { --mergeDepth; delete A; delete B; return false; }
    (own ? B : A)->model = om;
    st.maxSteps = A->steps + mergeBudget;
    bool stopA = takeEdge(*A, (*in.edges)[0], &st);
    if (!stopA) run(*A, &st);
    st.maxSteps = B->steps + mergeBudget;
    bool stopB = takeEdge(*B, (*in.edges)[1], &st);
    if (!stopB) run(*B, &st);
    ok = A->inputs.size() == s.inputs.size() && B->inputs.size() == s.inputs.size() && A->obs.size() == s.obs.size() && B->obs.size() == s.obs.size() && A->cur == s.cur && B->cur == s.cur && A->expectAbort == B->expectAbort && A->heapLive == B->heapLive && A->th.size() == s.th.size() && B->th.size() == s.th.size() && A->pc.size() == s.pc.size() + 1 && B->pc.size() == s.pc.size() + 1 && A->curExc == B->curExc;
    if (!ok) throw MergeAbort{"shape"};
    u32 oldNext = s.mem.next; u32 mx = std::max(A->mem.next, B->mem.next);
    A->pc = s.pc; A->model = s.model;
    if (!mergeMem(*A, *B, c, oldNext)) throw MergeAbort{"memory"};
    A->mem.next = mx;
    Frame &fa = A->top(), &fb = B->top();
    if (fa.allocas.size() != fb.allocas.size()) throw MergeAbort{"alloca"};
    for (size_t i = 0; i < fa.r.size(); ++i) {
      Val a = fa.r[i], b = fb.r[i];
      if (a.e == b.e && a.c == b.c) continue;
      int w = fa.f->slotW[i];
      // stale slots may hold expressions of an older value: widths always agree per slot
      fa.r[i] = mkV(EM.ite(c, toE(a, w), toE(b, w)));
    }
    fa.pc = fb.pc; fa.bb = fb.bb;
    A->steps = std::max(A->steps, B->steps);
    --mergeDepth;
    State tmp(*A); s = tmp; delete A; delete B; A = B = nullptr;
    SH->merges++; ++h.second;
    return true;
  } catch (MergeAbort& m) {
    --mergeDepth; delete A; delete B; SH->mergeFails++; ++h.first;
    if (verbose && h.first == 1) fprintf(stderr, "osym: merge failed (%s) at %s\n", m.why, where(s).c_str());
    return false;
  }
}

// ---------------------------------------------------------------- interpreter
static inline u64 m64(u64 v, int w) { return w >= 64 ? v : v & (((u64)1 << w) - 1); }
static inline i64 s64(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static const Op iop2e[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR};

static void endPath(State& s, bool counted) {
  if (mergeDepth) throw MergeAbort{"end"};
  if (!counted) return;
  SH->paths++;
  bool tr = SH->ntrace.load() < traceWanted && (s.inputs.size() || s.obs.size());
  if (tr) {  // the native run must not depend on uninitialised memory or environment values
    auto bad = [&](Expr* e) { for (auto v : EM.varsOf(e)) if (EM.vars[v].kind == 1 || EM.vars[v].kind == 2) return true; return false; };
    for (Expr* e : s.pc) if (bad(e)) { tr = false; if (getenv("OSYM_DUMP")) fprintf(stderr, "osym: untraceable: %s\n", toStr(e, 6).c_str()); }
    for (auto& p : s.obs) if (p.second.second.e && bad(p.second.second.e)) tr = false;
  }
  if (tr) {
    int n = SH->ntrace++;
    if (n < traceWanted) {
      std::string o = "[";
      EM.newEpoch();
      for (size_t i = 0; i < s.obs.size(); ++i) { auto& p = s.obs[i]; u64 v = p.second.second.e ? (u64)EM.eval(p.second.second.e, s.model) : p.second.second.c; o += (i ? "," : "") + std::string("[\"") + jesc(p.first) + "\"," + std::to_string(v) + "]"; }
      o += "]";
      fprintf(outF, "{\"t\":\"trace\",\"inputs\":%s,\"obs\":%s}\n", inputsJson(s, s.model).c_str(), o.c_str()); fflush(outF);
    }
  }
}
static u64 stepFlush = 0;

static RunRes run(State& s, StopCond* stop) {
  Frame* f = &s.top(); 
  u64 sinceCheck = 0;
#define R(o) ((o) >= 0 ? f->r[o] : cpool[-(o) - 1])
#define NEXT { ++f->pc; continue; }
  for (;;) {
    Inst& in = f->f->code[f->pc];
    ++s.steps; ++stepFlush;
    if (++sinceCheck >= 4096) {
      sinceCheck = 0;
      if (stop) { if (s.steps > stop->maxSteps) throw MergeAbort{"budget"}; }
      if (s.steps > stepLimit) {
        if (mergeDepth) throw MergeAbort{"limit"};
        violation(s, "STEP-LIMIT", "execution did not finish within the step limit", s.model); return RUN_DONE;
      }
      if (stopNow()) { if (mergeDepth) throw MergeAbort{"stop"}; return RUN_DONE; }
      static int tick = 0;
      if ((++tick & 63) == 0 && nowS() - tStart > timeLimit) { if (!SH->stop.exchange(1)) incomplete(&s, "time limit reached"); if (mergeDepth) throw MergeAbort{"stop"}; return RUN_DONE; }
    }
    switch (in.op) {
      case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR: {
        Val a = R(in.a), b = R(in.b); int w = in.w;
        if (in.op == I_UDIV || in.op == I_SDIV || in.op == I_UREM || in.op == I_SREM) {
          Expr* z = EM.eq(toE(b, w), EM.cst(0, w));
          if (z->op == O_CONST) { if (z->c) { violation(s, "DIV", "division by zero", s.model); endPath(s, false); return RUN_DONE; } }
          else {
            bool own; Assign om; int r = decide(s, z, own, om);
            if (r == 1 || r == 2) {
              Assign w2 = r == 1 ? s.model : (own ? s.model : om);
              violation(s, "DIV", "division by zero", w2);
              if (r == 1) { endPath(s, false); return RUN_DONE; }
              if (own) s.model = om; addPC(s, EM.lnot(z));
            } else if (r == 3) incomplete(&s, "solver gave no answer on a divisor");
          }
        }
        if (!a.e && !b.e && w <= 64) {
          u64 r;
          switch (in.op) {
            case I_ADD: r = a.c + b.c; break; case I_SUB: r = a.c - b.c; break; case I_MUL: r = a.c * b.c; break;
            case I_UDIV: r = a.c / b.c; break; case I_UREM: r = a.c % b.c; break;
            case I_SDIV: { i64 x = s64(a.c, w), y = s64(b.c, w); r = y == -1 ? (u64)0 - (u64)x : (u64)(x / y); break; }
            case I_SREM: { i64 x = s64(a.c, w), y = s64(b.c, w); r = y == -1 ? 0 : (u64)(x % y); break; }
            case I_SHL: r = b.c >= (u64)w ? 0 : a.c << b.c; break; case I_LSHR: r = b.c >= (u64)w ? 0 : a.c >> b.c; break;
            case I_ASHR: { i64 x = s64(a.c, w); r = (u64)(x >> (b.c >= (u64)w ? w - 1 : b.c)); break; }
            case I_AND: r = a.c & b.c; break; case I_OR: r = a.c | b.c; break; default: r = a.c ^ b.c; break;
          }
          f->r[in.dst] = VC(m64(r, w));
        } else f->r[in.dst] = mkV(EM.bin(iop2e[in.op], toE(a, w), toE(b, w)));
        NEXT;
      }
      case I_ICMP: {
        Val a = R(in.a), b = R(in.b); int w = in.w;
        if (!a.e && !b.e && w <= 64) {
          bool r; u64 x = a.c, y = b.c; i64 sx_ = s64(x, w), sy = s64(y, w);
          switch (in.sub) {
            case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx_ > sy; break; case CmpInst::ICMP_SGE: r = sx_ >= sy; break;
            case CmpInst::ICMP_SLT: r = sx_ < sy; break; default: r = sx_ <= sy; break;
          }
          f->r[in.dst] = VC(r);
        } else {
          Expr *x = toE(a, w), *y = toE(b, w), *r;
          switch (in.sub) {
            case CmpInst::ICMP_EQ: r = EM.eq(x, y); break; case CmpInst::ICMP_NE: r = EM.ne(x, y); break; case CmpInst::ICMP_UGT: r = EM.cmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = EM.cmp(O_ULE, y, x); break;
            case CmpInst::ICMP_ULT: r = EM.cmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = EM.cmp(O_ULE, x, y); break; case CmpInst::ICMP_SGT: r = EM.cmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = EM.cmp(O_SLE, y, x); break;
            case CmpInst::ICMP_SLT: r = EM.cmp(O_SLT, x, y); break; default: r = EM.cmp(O_SLE, x, y); break;
          }
          f->r[in.dst] = mkV(r);
        }
        NEXT;
      }
      case I_FCMP: {
        Val a = R(in.a), b = R(in.b); int w = in.w; Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
        auto un = [&] { return EM.fcmp(O_FUNO, x, y); };
        switch (in.sub) {
          case CmpInst::FCMP_FALSE: r = EM.F; break; case CmpInst::FCMP_TRUE: r = EM.T; break;
          case CmpInst::FCMP_OEQ: r = EM.fcmp(O_FOEQ, x, y); break; case CmpInst::FCMP_OGT: r = EM.fcmp(O_FOLT, y, x); break; case CmpInst::FCMP_OGE: r = EM.fcmp(O_FOLE, y, x); break;
          case CmpInst::FCMP_OLT: r = EM.fcmp(O_FOLT, x, y); break; case CmpInst::FCMP_OLE: r = EM.fcmp(O_FOLE, x, y); break;
          case CmpInst::FCMP_ONE: r = EM.land(EM.lnot(EM.fcmp(O_FOEQ, x, y)), EM.lnot(un())); break;
          case CmpInst::FCMP_ORD: r = EM.lnot(un()); break; case CmpInst::FCMP_UNO: r = un(); break;
          case CmpInst::FCMP_UEQ: r = EM.lor(EM.fcmp(O_FOEQ, x, y), un()); break;
          case CmpInst::FCMP_UGT: r = EM.lnot(EM.fcmp(O_FOLE, x, y)); break; case CmpInst::FCMP_UGE: r = EM.lnot(EM.fcmp(O_FOLT, x, y)); break;
          case CmpInst::FCMP_ULT: r = EM.lnot(EM.fcmp(O_FOLE, y, x)); break; case CmpInst::FCMP_ULE: r = EM.lnot(EM.fcmp(O_FOLT, y, x)); break;
          case CmpInst::FCMP_UNE: r = EM.lnot(EM.fcmp(O_FOEQ, x, y)); break;
        }
        f->r[in.dst] = mkV(r); NEXT;
      }
      case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: {
        Val a = R(in.a), b = R(in.b);
        if (!a.e && !b.e && in.w == 64) {
          double x = bitsToD(a.c), y = bitsToD(b.c), r = in.op == I_FADD ? x + y : in.op == I_FSUB ? x - y : in.op == I_FMUL ? x * y : in.op == I_FDIV ? x / y : fmod(x, y);
          f->r[in.dst] = VC(dToBits(r)); NEXT;
        }
        if (in.op == I_FDIV && b.e && in.w == 64) {  // a divisor the path condition fixes
          Expr* x; int sc; i64 v; if (EM.asScaled(b.e, x, sc) && EM.polyValue(s.pc, x, v) && v != 0 && v > -((i64)1 << 52) && v < ((i64)1 << 52)) b = VC(dToBits(std::ldexp((double)v, sc)));
        }
        static const Op fo[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM};
        f->r[in.dst] = mkV(EM.fbin(fo[in.op - I_FADD], toE(a, in.w), toE(b, in.w))); NEXT;
      }
      case I_FNEG: { Val a = R(in.a); f->r[in.dst] = mkV(EM.f1(O_FNEG, toE(a, in.w), in.w)); NEXT; }
      case I_ZEXT: { Val a = R(in.a); f->r[in.dst] = a.e || in.w > 64 ? mkV(EM.zext(toE(a, in.w2), in.w)) : a; NEXT; }
      case I_SEXT: { Val a = R(in.a); f->r[in.dst] = a.e || in.w > 64 ? mkV(EM.sext(toE(a, in.w2), in.w)) : VC(m64((u64)s64(a.c, in.w2), in.w)); NEXT; }
      case I_TRUNC: { Val a = R(in.a); f->r[in.dst] = a.e ? mkV(EM.extract(a.e, 0, in.w)) : VC(m64(a.c, in.w)); NEXT; }
      case I_FPEXT: f->r[in.dst] = mkV(EM.f1(O_FPEXT, toE(R(in.a), in.w2), in.w)); NEXT;
      case I_FPTRUNC: f->r[in.dst] = mkV(EM.f1(O_FPTRUNC, toE(R(in.a), in.w2), in.w)); NEXT;
      case I_SITOFP: case I_UITOFP: f->r[in.dst] = mkV(intToFP(s, in.op == I_SITOFP ? O_SITOFP : O_UITOFP, toE(R(in.a), in.w2), in.w)); NEXT;
      case I_FPTOSI: f->r[in.dst] = mkV(EM.f1(O_FPTOSI, toE(R(in.a), in.w2), in.w)); NEXT;
      case I_FPTOUI: f->r[in.dst] = mkV(EM.f1(O_FPTOUI, toE(R(in.a), in.w2), in.w)); NEXT;
      case I_MOV: f->r[in.dst] = R(in.a); NEXT;
      case I_SELECT: {
        Val c = R(in.c); if (!c.e) { f->r[in.dst] = c.c ? R(in.a) : R(in.b); NEXT; }
        if (forkSel && in.w > 1 && !in.isFP) {  // addresses and offsets are explored separately
          Val x = R(in.a), y = R(in.b); if (!(x.e == y.e && x.c == y.c)) { bool b = branchOn(s, c.e); f = &s.top(); f->r[in.dst] = b ? R(in.a) : R(in.b); NEXT; }
        }
        if (in.isFP && !forkOff) {  // floating-point choices that are not integer valued are explored separately
          Val x = R(in.a), y = R(in.b); Expr* t; int sc;
          if (!(x.e == y.e && x.c == y.c) && ((x.e && !EM.asScaled(x.e, t, sc)) || (y.e && !EM.asScaled(y.e, t, sc)))) {
            bool b = branchOn(s, c.e); f = &s.top(); f->r[in.dst] = b ? R(in.a) : R(in.b); NEXT;
          }
        }
        f->r[in.dst] = mkV(EM.ite(c.e, toE(R(in.a), in.w), toE(R(in.b), in.w))); NEXT;
      }
      case I_LOAD: {
        Val a = R(in.a); auto& ps = *in.pieces; if (ps.empty()) NEXT;
        u32 n = ps.back().off + ps.back().bytes;
        if (!a.e) {
          u32 id, off; const char* e = accessErr(s, a.c, n, false, id, off);
          if (!e) { for (size_t i = 0; i < ps.size(); ++i) f->r[in.dst + i] = loadC(s, id, off + ps[i].off, ps[i].bytes, ps[i].w); NEXT; }
        }
        Acc r; if (resolve(s, a, n, false, r, "load") != B_OK) { endPath(s, false); return RUN_DONE; }
        for (size_t i = 0; i < ps.size(); ++i) f->r[in.dst + i] = loadA(s, r, ps[i].off, ps[i].bytes, ps[i].w);
        NEXT;
      }
      case I_STORE: {
        Val a = R(in.a); auto& ps = *in.pieces; if (ps.empty()) NEXT;
        u32 n = ps.back().off + ps.back().bytes;
        Acc r; if (resolve(s, a, n, true, r, "store") != B_OK) { endPath(s, false); return RUN_DONE; }
        for (size_t i = 0; i < ps.size(); ++i) storeA(s, r, ps[i].off, ps[i].bytes, ps[i].w, R(in.call->args[i]));
        NEXT;
      }
      case I_GEP: {
        Val a = R(in.a);
        if (!in.gep) { f->r[in.dst] = a.e ? mkV(EM.bin(O_ADD, a.e, EM.cst((u64)in.imm, 64))) : VC(a.c + (u64)in.imm); NEXT; }
        bool sym = a.e; for (auto& g : *in.gep) if (R(g.first).e) sym = true;
        int iw = in.w2;
        if (!sym) { u64 r = a.c + (u64)in.imm; for (auto& g : *in.gep) r += (u64)(s64(R(g.first).c, iw) * g.second); f->r[in.dst] = VC(r); NEXT; }
        Expr* r = EM.bin(O_ADD, toE(a, 64), EM.cst((u64)in.imm, 64));
        for (auto& g : *in.gep) r = EM.bin(O_ADD, r, EM.bin(O_MUL, EM.sext(toE(R(g.first), iw), 64), EM.cst((u64)g.second, 64)));
        f->r[in.dst] = mkV(r); NEXT;
      }
      case I_ALLOCA: {
        u64 n = concretize(s, R(in.a), in.w); f = &s.top();
        u32 id = s.mem.alloc(in.imm * n, K_STACK, false); f->allocas.push_back(id); f->r[in.dst] = VC(addrOf(id)); NEXT;
      }
      case I_BR: { if (takeEdge(s, (*in.edges)[0], stop)) return RUN_STOP; continue; }
      case I_CONDBR: {
        Val c = R(in.a); bool t;
        if (!c.e) t = c.c;
        else {
          bool own; Assign om; int r = decide(s, c.e, own, om);
          if (r <= 1) t = r;
          else {
            SH->symBranches++;
            if (stopNow()) { if (mergeDepth) throw MergeAbort{"stop"}; return RUN_DONE; }
            if (r == 3) { incomplete(&s, "solver gave no answer on a branch: " + toStr(c.e, 4)); if (mergeDepth) throw MergeAbort{"unknown"}; addPC(s, own ? c.e : EM.lnot(c.e)); t = own; }
            else {
              if (f->f->doMerge && tryMerge(s, in, c.e)) { f = &s.top(); if (stop && stop->bb == f->bb && stop->thread == s.cur && s.th[s.cur].st.size() == stop->depth) return RUN_STOP; continue; }
              f = &s.top();
              forkOther(s, own ? EM.lnot(c.e) : c.e, om);
              addPC(s, own ? c.e : EM.lnot(c.e)); ++s.depth; t = own;
            }
          }
        }
        if (takeEdge(s, (*in.edges)[t ? 0 : 1], stop)) return RUN_STOP;
        continue;
      }
      case I_SWITCH: {
        Val c = R(in.a); int k = -1;
        if (c.e) {
          u64 x = (u64)EM.eval(c.e, s.model);
          for (size_t i = 0; i < in.cases->size(); ++i) if ((*in.cases)[i] == x) k = i;
          if (k >= 0) { branchOn(s, EM.eq(c.e, EM.cst(x, in.w))); f = &s.top(); }
          else { Expr* none = EM.T; for (u64 v : *in.cases) none = EM.land(none, EM.ne(c.e, EM.cst(v, in.w))); branchOn(s, none); f = &s.top(); }
        } else for (size_t i = 0; i < in.cases->size(); ++i) if ((*in.cases)[i] == c.c) { k = i; break; }
        if (takeEdge(s, (*in.edges)[k + 1], stop)) return RUN_STOP;
        continue;
      }
      case I_RET: {
        std::vector<Val> rv; for (int o : in.call->args) rv.push_back(R(o));
        if (s.th[s.cur].st.size() == 1) {
          if (stop) throw MergeAbort{"ret"};
          popFrame(s); s.th[s.cur].done = true;
          if (s.cur == 0) { s.th[0].st.clear(); return RUN_STOP; }
          s.cur = 0; f = &s.top(); // coroutine finished: back to main, completing its switch call
          { Inst& ci = f->f->code[f->pc]; if (ci.dst >= 0) f->r[ci.dst] = VC(0); }
          finishCall(s, nullptr); f = &s.top(); continue;
        }
        if (stop && s.th[s.cur].st.size() <= stop->depth) throw MergeAbort{"ret"};
        popFrame(s); f = &s.top();
        Inst& ci = f->f->code[f->pc];
        for (size_t i = 0; i < rv.size() && ci.dst >= 0; ++i) f->r[ci.dst + i] = rv[i];
        if (finishCall(s, stop)) return RUN_STOP;
        continue;
      }
      case I_CALL: {
        CallInfo& ci = *in.call; FuncInfo* fi = ci.callee;
        if (!fi) {
          u64 a = concretize(s, R(ci.calleeOp), 64); f = &s.top(); fi = funcAt(a);
          if (!fi) { violation(s, "MEMORY", "call through a pointer that is not a function", s.model); endPath(s, false); return RUN_DONE; }
        }
        if (!fi->builtinLooked) { fi->builtinLooked = true; fi->builtin = findBuiltin(fi); if (!fi->builtin && fi->F->isDeclaration()) if (Function* W = Mod->getFunction("__wrap_" + fi->name)) fi->alias = finfo[W]; }
        if (fi->alias) fi = fi->alias;
        if (fi->builtin) {
          std::vector<Val> args; args.reserve(ci.args.size()); for (int o : ci.args) args.push_back(R(o));
          Val ret[4] = {VC(0), VC(0), VC(0), VC(0)};
          int r = fi->builtin(s, in, args, ret);
          if (r == B_END) { endPath(s, false); return RUN_DONE; }
          f = &s.top();
          if (r == B_CTRL) { if (stop) throw MergeAbort{"ctrl"}; continue; }
          for (int i = 0; i < ci.nret; ++i) f->r[in.dst + i] = ret[i];
          if (finishCall(s, stop)) return RUN_STOP;
          continue;
        }
        if (fi->F->isDeclaration()) {
          if (mergeDepth) throw MergeAbort{"external"};
          incomplete(&s, "call of an unmodelled external function " + fi->name); endPath(s, false); return RUN_DONE;
        }
        if (s.th[s.cur].st.size() > 4000) { violation(s, "STEP-LIMIT", "recursion too deep", s.model); endPath(s, false); return RUN_DONE; }
        static thread_local std::vector<Val> av; av.clear(); for (int o : ci.args) av.push_back(R(o));
        for (size_t i = 0; i < ci.byval.size(); ++i) if (ci.byval[i]) {
          u32 id = s.mem.alloc(ci.byval[i], K_STACK, true); 
          u64 src = concretize(s, av[ci.argBase[i]], 64);
          if (copyMem(s, addrOf(id), src, ci.byval[i]) != B_OK) { endPath(s, false); return RUN_DONE; }
          av[ci.argBase[i]] = VC(addrOf(id)); 
        }
        pushFrame(s, fi); f = &s.top();
        for (size_t i = 0; i < ci.byval.size(); ++i) if (ci.byval[i]) f->allocas.push_back((u32)(av[ci.argBase[i]].c >> 32));
        int na = std::min<int>(fi->nargslots, av.size());
        for (int i = 0; i < na; ++i) f->r[i] = av[i];
        for (size_t i = fi->nargslots; i < av.size(); ++i) f->varargs.push_back(av[i]);
        continue;
      }
      case I_UNREACHABLE: violation(s, "UNREACHABLE", "undefined behaviour: unreachable code reached", s.model); endPath(s, false); return RUN_DONE;
      case I_LANDINGPAD: {
        auto* L = cast<LandingPadInst>(in.I);
        u64 exc = s.curExc; u64 tinfo = loadVal(s, exc, 8).c; u64 sel = 0;
        for (unsigned i = 0; i < L->getNumClauses(); ++i) if (L->isCatch(i)) {
          u64 want = (u64)constScalar(L->getClause(i)); u64 adj = 0;
          if (typeMatches(s, tinfo, want, adj)) { sel = want ? want >> 32 : 0x7fffffff; Acc r; if (resolve(s, VC(exc + 8), 8, true, r, "exc") == B_OK) storeA(s, r, 0, 8, 64, VC(exc + 32 + adj)); break; }
        }
        f->r[in.dst] = VC(exc + 32); f->r[in.dst + 1] = VC(sel & 0xffffffff);
        if (!sel && !L->isCleanup()) { // nothing here wants it: continue unwinding
          auto& st = s.th[s.cur].st; if (st.size() == 1) { violation(s, "EXCEPTION", "uncaught exception", s.model); endPath(s, false); return RUN_DONE; }
          popFrame(s); if (unwindTo(s) == B_END) { violation(s, "EXCEPTION", "uncaught exception", s.model); endPath(s, false); return RUN_DONE; }
          if (stop) throw MergeAbort{"exc"}; f = &s.top(); continue;
        }
        NEXT;
      }
      case I_RESUME: {
        if (stop) throw MergeAbort{"exc"};
        s.curExc = R(in.a).c - 32;
        if (s.th[s.cur].st.size() == 1) { violation(s, "EXCEPTION", "uncaught exception", s.model); endPath(s, false); return RUN_DONE; }
        popFrame(s); if (unwindTo(s) == B_END) { violation(s, "EXCEPTION", "uncaught exception", s.model); endPath(s, false); return RUN_DONE; }
        f = &s.top(); continue;
      }
      case I_ATOMICRMW: {
        Acc r; int bytes = in.w / 8; if (resolve(s, R(in.a), bytes, true, r, "atomic") != B_OK) { endPath(s, false); return RUN_DONE; }
        Val old = loadA(s, r, 0, bytes, in.w); Expr *o = toE(old, in.w), *v = toE(R(in.b), in.w), *n;
        switch (in.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = EM.bin(O_ADD, o, v); break; case AtomicRMWInst::Sub: n = EM.bin(O_SUB, o, v); break; case AtomicRMWInst::And: n = EM.bin(O_AND, o, v); break; case AtomicRMWInst::Or: n = EM.bin(O_OR, o, v); break;
          case AtomicRMWInst::Max: n = EM.ite(EM.cmp(O_SLT, o, v), v, o); break; case AtomicRMWInst::Min: n = EM.ite(EM.cmp(O_SLT, v, o), v, o); break;
          default: incomplete(&s, "atomicrmw kind"); endPath(s, false); return RUN_DONE; }
        storeA(s, r, 0, bytes, in.w, mkV(n)); f->r[in.dst] = old; NEXT;
      }
      case I_CMPXCHG: {
        Acc r; int bytes = in.w / 8; if (resolve(s, R(in.a), bytes, true, r, "atomic") != B_OK) { endPath(s, false); return RUN_DONE; }
        Val old = loadA(s, r, 0, bytes, in.w); Expr* ok = EM.eq(toE(old, in.w), toE(R(in.b), in.w));
        storeA(s, r, 0, bytes, in.w, mkV(EM.ite(ok, toE(R(in.c), in.w), toE(old, in.w))));
        f->r[in.dst] = old; f->r[in.dst + 1] = mkV(ok); NEXT;
      }
      case I_NOP: default: NEXT;
    }
  }
}

// ---------------------------------------------------------------- worker processes
static double lastGive = 0;
static bool isChild = false;
static void openOut() {
  char b[512]; snprintf(b, 512, "%s/out.%d.jsonl", outDir.c_str(), (int)getpid()); outF = fopen(b, "w"); if (!outF) { perror(b); exit(3); }
}
static void flushStats() {
  auto& st = SV.st;
  SH->queries += st.queries; SH->cacheHits += st.cacheHits; SH->sat += st.sat; SH->unsat += st.unsat; SH->unknown += st.unknown; SH->fpa += st.fpaQueries; SH->uf += st.ufQueries;
  SH->solverUs += (u64)(st.time * 1e6); u64 m = (u64)(st.maxTime * 1e6); u64 c = SH->maxQueryUs; while (m > c && !SH->maxQueryUs.compare_exchange_weak(c, m)) {}
  st = SolverStats(); SH->steps += stepFlush; stepFlush = 0;
  fprintf(outF, "{\"t\":\"functions\",\"f\":[");
  bool first = true;
  for (auto& p : finfo) if (p.second->calls) { fprintf(outF, "%s\"%s\"", first ? "" : ",", p.second->name.c_str()); first = false; p.second->calls = 0; }
  fprintf(outF, "]}\n"); fflush(outF);
}
static void pushState(State* n) {
  work.push_back(n);
  if (maxProcs > 1 && SH->slots.load(std::memory_order_relaxed) > 0) {
    double t = nowS(); if (t - lastGive < 0.01) return;
    if (SH->slots.fetch_sub(1) <= 0) { SH->slots++; return; }
    lastGive = t;
    fflush(outF); fflush(stdout); fflush(stderr);
    SH->active++; SH->procs++;
    pid_t p = fork();
    if (p < 0) { SH->slots++; SH->active--; return; }
    if (p == 0) {
      isChild = true;
      State* g = work.front();
      work.clear();  // parent owns the others (their memory is simply leaked here)
      work.push_back(g); openOut(); SV.st = SolverStats(); stepFlush = 0; for (auto& q : finfo) q.second->calls = 0;
      throw 1;       // unwinds to the work loop
    }
    delete work.front(); work.pop_front();
  }
}
static double rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096.0 / 1e6; }
static void workLoop() {
  for (;;) {
    if (work.empty() || SH->stop) break;
    State* s = work.back(); work.pop_back();
    try {
      RunRes r = run(*s, nullptr);
      if (r == RUN_STOP) endPath(*s, true);
      delete s;
    } catch (int) { mergeDepth = 0; continue; }
    if (rssMB() > memLimitMB) { incomplete(nullptr, "memory limit reached"); SH->stop = 1; }
  }
}

int main(int argc, char** argv) {
  std::string bc, entry = "osym_main";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
    if (a == "-o") outDir = val(); else if (a == "-t") timeLimit = atof(val().c_str()); else if (a == "-j") maxProcs = atoi(val().c_str());
    else if (a == "-e") entry = val(); else if (a == "-p") { std::string v = val(); auto q = v.find('='); params[v.substr(0, q)] = v.substr(q + 1); }
    else if (a == "-v") { verbose = true; solverVerbose = true; } else if (a == "--steps") stepLimit = strtoull(val().c_str(), 0, 10);
    else if (a == "--merge-all") mergeAll = true; else if (a == "--merge") mergePats.push_back(val()); else if (a == "--no-merge") noMergePats.push_back(val());
    else if (a == "--rlimit") SV.rlimit = strtoul(val().c_str(), 0, 10); else if (a == "--fpa-rlimit") SV.fpaRlimit = strtoul(val().c_str(), 0, 10);
    else if (a == "--max-viol") maxViol = atoi(val().c_str()); else if (a == "--traces") traceWanted = atoi(val().c_str()); else if (a == "--max-ite") maxIte = strtoull(val().c_str(), 0, 10);
    else if (a == "--mem") memLimitMB = atof(val().c_str()); else if (a == "--no-intfp") EM.intFP = false; else if (a == "--no-fork-fp") forkOff = true; else if (a == "--fork-sel") forkSel = true; else if (a == "--merge-budget") mergeBudget = strtoull(val().c_str(), 0, 10);
    else bc = a;
  }
  tStart = nowS(); SV.deadline = tStart + timeLimit + 20;
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof(Shared));
  SH->slots = maxProcs - 1; SH->active = 1; SH->procs = 1;
  openOut();
  SMDiagnostic err; Mod = parseIRFile(bc, err, Ctx); if (!Mod) { err.print("osym", errs()); return 3; }
  DL = &Mod->getDataLayout();
  initState = new State; State& s = *initState;
  funcById.push_back(nullptr);
  for (auto& F : *Mod) { FuncInfo* fi = new FuncInfo; fi->F = &F; fi->name = F.getName().str(); u32 id = s.mem.alloc(1, K_FUNC, true); if (funcById.size() <= id) funcById.resize(id + 1, nullptr); funcById[id] = fi; fi->addr = addrOf(id); gaddr[&F] = fi->addr; finfo[&F] = fi; }
  for (auto& G : Mod->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; if (!G.hasInitializer() && sz == 0) sz = 256; if (G.isDeclaration()) sz = std::max<u64>(sz, 256); u32 id = s.mem.alloc(sz, K_GLOBAL, true); gaddr[&G] = addrOf(id); }
  for (auto& G : Mod->globals()) { if (G.hasInitializer()) { u32 id = gaddr[&G] >> 32; initBytes(G.getInitializer(), s.mem.dataW(id)->c); if (G.isConstant()) s.mem.getW(id)->kind = K_CONST; } }
  Function* E = Mod->getFunction(entry); if (!E) { fprintf(stderr, "osym: no entry %s\n", entry.c_str()); return 3; }
  // reach labels the harness contains (vacuity witnesses)
  std::vector<std::string> labels;
  if (Function* RF = Mod->getFunction("osym_reach")) for (auto* U : RF->users()) if (auto* c = dyn_cast<CallBase>(U)) { const Value* v = c->getArgOperand(0)->stripPointerCasts(); if (auto* g = dyn_cast<GlobalVariable>(v)) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer())) labels.push_back(d->isCString() ? d->getAsCString().str() : ""); }
  s.th.resize(1);
  // run constructors then the entry
  std::vector<std::pair<int, Function*>> ctors;
  if (auto* gc = Mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  int rc = 0;
  try {
    for (auto& c : ctors) if (c.second) { s.th[0].st.clear(); s.cur = 0; s.th[0].done = false; pushFrame(s, getFI(c.second)); run(s, nullptr); }
    for (auto& w : work) { (void)w; fprintf(stderr, "osym: constructor forked\n"); }
    s.th[0].st.clear(); s.th[0].done = false; s.steps = 0; pushFrame(s, getFI(E));
    { Frame& f = s.top(); for (size_t i = 0; i < f.r.size(); ++i) f.r[i] = VC(0); }
    work.push_back(initState);
  } catch (int) {}
  workLoop();
  flushStats();
  SH->active--; SH->slots++;
  if (isChild) { fclose(outF);
    // children of children are reaped by their parents
    while (wait(nullptr) > 0) {}
    _exit(0); }
  // crashed workers must not go unnoticed
  int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { rc = 3; }
  if (SH->active != 0) rc = 3;
  fprintf(outF, "{\"t\":\"summary\",\"rc\":%d,\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"violations\":%d,\"incomplete\":%d,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"uf_queries\":%llu,\"fpa_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"merges\":%llu,\"merge_fails\":%llu,\"sym_branches\":%llu,\"assume_killed\":%llu,\"aborts_expected\":%llu,\"procs\":%llu,\"wall_s\":%.3f,\"reach\":{",
    rc, (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->steps, (int)SH->nviol, (int)SH->incomplete, (unsigned long long)SH->assertsChecked, (unsigned long long)SH->assertsSym, (unsigned long long)SH->queries, (unsigned long long)SH->cacheHits, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->uf, (unsigned long long)SH->fpa, SH->solverUs / 1e6, SH->maxQueryUs / 1e6, (unsigned long long)SH->merges, (unsigned long long)SH->mergeFails, (unsigned long long)SH->symBranches, (unsigned long long)SH->assumeKilled, (unsigned long long)SH->abortsExpected, (unsigned long long)SH->procs, nowS() - tStart);
  bool first = true; std::set<std::string> done;
  for (auto& l : labels) { if (!done.insert(l).second) continue; u64 n = 0; for (int i = 0; i < SH->nreach; ++i) if (l == SH->reach[i]) n = SH->reachN[i]; fprintf(outF, "%s\"%s\":%llu", first ? "" : ",", jesc(l).c_str(), (unsigned long long)n); first = false; }
  fprintf(outF, "}}\n"); fclose(outF);
  if (SH->incomplete && rc == 0) rc = 2;
  if (SH->nviol) rc = 1;
  return rc;
}
