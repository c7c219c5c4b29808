// Hash-consed bit-vector / floating-point expression DAG with simplification,
// interval analysis and concrete evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  // floating point; operands and results are the IEEE bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FSQRT, O_FMA,
  O_FFLOOR, O_FCEIL, O_FTRUNC, O_FRINT, O_FROUND,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC,
  O_UF1, O_UF2,  // libm call, aux = function id
  O_I2FS,        // signed integer k (<=54 bits) times 2^(aux-4096) as an exactly representable double; zero is +0
  O_NUM
};
extern const char* opName[];

struct Expr {
  Op op;
  uint8_t nk;
  uint16_t w;      // result width in bits
  uint32_t id;
  uint32_t aux;    // extract: low bit; var: var index; uf: function id
  uint32_t h;
  Expr* k[3];
  u128 c;          // constant value (masked)
};

struct VarInfo {
  std::string name;
  int width;
  bool isFP;
  bool hasRange;
  i64 lo, hi;      // signed inclusive range when hasRange
  int kind;        // 0 input, 1 uninitialised memory, 2 environment stub, 3 concretised choice
  Expr* e;
  u64 def = 0;     // default value inside the range
  Expr* axiom = nullptr;
};

struct Range {  // unsigned and signed intervals (width<=64)
  u64 ulo, uhi;
  i64 slo, shi;
};

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, int w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  return (i128)(((v & maskw(w)) ^ m)) - (i128)m;
}

u64 varDefault(uint32_t i);
struct Assign {              // variable index -> value
  std::vector<u64> v;
  u64 get(uint32_t i) const { return i < v.size() ? v[i] : varDefault(i); }
  void set(uint32_t i, u64 x) { while (v.size() <= i) v.push_back(varDefault(v.size())); v[i] = x; }
};

struct ExprMgr {
  std::vector<Expr*> all;
  std::vector<VarInfo> vars;
  std::vector<std::string> ufNames;
  std::unordered_map<std::string, uint32_t> ufIds;
  Expr *T, *F;
  ExprMgr();
  Expr* mk(Op op, int w, Expr* a = 0, Expr* b = 0, Expr* c = 0, uint32_t aux = 0, u128 cv = 0);
  Expr* cst(u128 v, int w) { return mk(O_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr* var(const std::string& name, int w, bool fp, bool hasRange, i64 lo, i64 hi, int kind);
  // simplifying constructors
  Expr* bin(Op op, Expr* a, Expr* b);
  Expr* cmp(Op op, Expr* a, Expr* b);
  Expr* eq(Expr* a, Expr* b);
  Expr* ne(Expr* a, Expr* b) { return lnot(eq(a, b)); }
  Expr* lnot(Expr* a);
  Expr* ite(Expr* c, Expr* a, Expr* b);
  Expr* zext(Expr* a, int w);
  Expr* sext(Expr* a, int w);
  Expr* extract(Expr* a, int lo, int w);
  Expr* concat(Expr* hi, Expr* lo);
  Expr* f1(Op op, Expr* a, int w);
  Expr* fbin(Op op, Expr* a, Expr* b);
  Expr* fcmp(Op op, Expr* a, Expr* b);
  Expr* uf(const std::string& f, Expr* a, Expr* b);
  bool asScaled(Expr* e, Expr*& i, int& s);
  Expr* mkScaled(Expr* i, int s);
  Expr* fitw(Expr* i, int w);
  const std::vector<uint32_t>& varsOf(Expr* e);
  bool hasFP(Expr* e);
  Expr* land(Expr* a, Expr* b) { return bin(O_AND, a, b); }
  Expr* lor(Expr* a, Expr* b) { return bin(O_OR, a, b); }
  Range range(Expr* e);
  bool polyValue(const std::vector<Expr*>& pc, Expr* x, i64& v);
  int polyEq(Expr* a, Expr* b);                       // 1 equal, 0 different, -1 not decided, as integer polynomials
  int polyImplied(const std::vector<Expr*>& pc, Expr* goal);  // goal follows from (1) or contradicts (0) one equation of pc
  int trailingZeros(Expr* e); int tz1(Expr* e);
  u128 eval(Expr* e, const Assign& m);
  void collectVars(Expr* e, std::unordered_set<uint32_t>& out);
  // evaluation memo
  std::vector<u128> memoV;
  std::vector<uint32_t> memoT;
  uint32_t epoch = 0;
  void newEpoch() { if (++epoch == 0) { std::fill(memoT.begin(), memoT.end(), 0); epoch = 1; } }
  u128 evalIn(Expr* e, const Assign& m);
  std::vector<std::vector<uint32_t>*> vmemo;
  std::vector<uint8_t> fpmemo;
  bool intFP = true;
  std::vector<Range> rmemo;
  std::vector<uint8_t> rhas;
 private:
  std::vector<Expr*> tab;
  size_t tabMask, tabN;
  void grow();
};
extern ExprMgr EM;

double bitsToD(u64 b);
u64 dToBits(double d);
double callUF1(const std::string& f, double a);
double callUF2(const std::string& f, double a, double b);
u128 evalOp(Op op, int w, int kw, u128 a, u128 b, u128 c, uint32_t aux, uint32_t ufid, int kw2);
std::string toStr(Expr* e, int depth = 6);
