#include "expr.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>

ExprMgr EM;
const char* opName[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor",
 "eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fma",
 "ffloor","fceil","ftrunc","frint","fround","foeq","folt","fole","funo","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","uf1","uf2","i2fs"};

double bitsToD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
u64 dToBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bitsToF(u64 b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static u64 fToBits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u64 varDefault(uint32_t i) { return EM.vars[i].def; }
ExprMgr::ExprMgr() {
  tab.assign(1 << 16, nullptr); tabMask = tab.size() - 1; tabN = 0;
  F = cst(0, 1); T = cst(1, 1);
}
void ExprMgr::grow() {
  std::vector<Expr*> n(tab.size() * 2, nullptr);
  size_t m = n.size() - 1;
  for (Expr* e : tab) if (e) { size_t i = e->h & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
  tab.swap(n); tabMask = m;
}
static inline uint32_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return (uint32_t)x; }
Expr* ExprMgr::mk(Op op, int w, Expr* a, Expr* b, Expr* c, uint32_t aux, u128 cv) {
  uint64_t hh = op * 1000003ull + w;
  hh = hh * 31 + (a ? a->id + 1 : 0); hh = hh * 1000003ull + (b ? b->id + 1 : 0); hh = hh * 1000003ull + (c ? c->id + 1 : 0);
  hh = hh * 131 + aux; hh ^= (uint64_t)cv * 0x9E3779B97F4A7C15ull; hh ^= (uint64_t)(cv >> 64) * 0xC2B2AE3D27D4EB4Full;
  uint32_t h = mix(hh);
  size_t i = h & tabMask;
  while (tab[i]) {
    Expr* e = tab[i];
    if (e->h == h && e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->aux == aux && e->c == cv) return e;
    i = (i + 1) & tabMask;
  }
  Expr* e = new Expr;
  e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->nk = c ? 3 : b ? 2 : a ? 1 : 0; e->aux = aux; e->c = cv; e->h = h;
  e->id = all.size(); all.push_back(e);
  tab[i] = e; if (++tabN * 2 > tab.size()) grow();
  return e;
}
Expr* ExprMgr::var(const std::string& name, int w, bool fp, bool hasRange, i64 lo, i64 hi, int kind) {
  VarInfo vi; vi.name = name; vi.width = w; vi.isFP = fp; vi.hasRange = hasRange; vi.lo = lo; vi.hi = hi; vi.kind = kind;
  Expr* e = mk(O_VAR, w, 0, 0, 0, vars.size());
  vi.e = e;
  if (hasRange) {
    i64 d = lo <= 0 && hi >= 0 ? 0 : lo;
    vi.def = (u64)d & (u64)maskw(w);
    vi.axiom = mk(O_AND, 1, mk(O_SLE, 1, cst((u128)(i128)lo, w), e), mk(O_SLE, 1, e, cst((u128)(i128)hi, w)));
  }
  vars.push_back(vi);
  return e;
}

static double fpOp(Op op, double a, double b) {
  switch (op) {
    case O_FADD: return a + b; case O_FSUB: return a - b; case O_FMUL: return a * b; case O_FDIV: return a / b;
    case O_FREM: return std::fmod(a, b); case O_FNEG: return -a; case O_FABS: return std::fabs(a); case O_FSQRT: return std::sqrt(a);
    case O_FFLOOR: return std::floor(a); case O_FCEIL: return std::ceil(a); case O_FTRUNC: return std::trunc(a);
    case O_FRINT: return std::rint(a); case O_FROUND: return std::round(a);
    default: abort();
  }
}
double callUF1(const std::string& f, double a) {
  if (f == "exp") return std::exp(a); if (f == "log") return std::log(a); if (f == "sin") return std::sin(a); if (f == "cos") return std::cos(a);
  if (f == "tan") return std::tan(a); if (f == "acos") return std::acos(a); if (f == "asin") return std::asin(a); if (f == "atan") return std::atan(a);
  if (f == "exp2") return std::exp2(a); if (f == "log2") return std::log2(a); if (f == "log10") return std::log10(a); if (f == "cbrt") return std::cbrt(a);
  if (f == "sinh") return std::sinh(a); if (f == "cosh") return std::cosh(a); if (f == "tanh") return std::tanh(a); if (f == "frexp_m") { int e; return std::frexp(a, &e); }
  fprintf(stderr, "osym: unknown libm function %s\n", f.c_str()); exit(3);
}
double callUF2(const std::string& f, double a, double b) {
  if (f == "pow") return std::pow(a, b); if (f == "atan2") return std::atan2(a, b); if (f == "hypot") return std::hypot(a, b); if (f == "fmod") return std::fmod(a, b);
  if (f == "copysign") return std::copysign(a, b); if (f == "ldexp") return std::ldexp(a, (int)(i64)dToBits(b));
  fprintf(stderr, "osym: unknown libm function %s\n", f.c_str()); exit(3);
}
u128 evalOp(Op op, int w, int kw, u128 a, u128 b, u128 c, uint32_t aux, uint32_t ufid, int kw2) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b == 0 ? m : (a / b) & m;
    case O_UREM: return b == 0 ? a : (a % b) & m;
    case O_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return (x < 0 ? (u128)1 : m) & m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case O_LSHR: return b >= (u128)w ? 0 : (a >> (int)b) & m;
    case O_ASHR: { i128 x = sx(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, kw) < sx(b, kw); case O_SLE: return sx(a, kw) <= sx(b, kw);
    case O_ITE: return a ? b : c;
    case O_ZEXT: return a; case O_SEXT: return (u128)sx(a, kw) & m;
    case O_EXTRACT: return (a >> aux) & m;
    case O_CONCAT: return ((a << kw2) | b) & m;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
      if (w == 32) { float x = bitsToF((u64)a), y = bitsToF((u64)b), r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : op == O_FDIV ? x / y : std::fmod(x, y); return fToBits(r); }
      return dToBits(fpOp(op, bitsToD((u64)a), bitsToD((u64)b)));
    case O_FNEG: return a ^ ((u128)1 << (w - 1));
    case O_FABS: return a & (m >> 1);
    case O_FSQRT: if (w == 32) return fToBits(std::sqrt(bitsToF((u64)a)));
    case O_FFLOOR: case O_FCEIL: case O_FTRUNC: case O_FRINT: case O_FROUND:
      return dToBits(fpOp(op, bitsToD((u64)a), 0));
    case O_FMA: return dToBits(std::fma(bitsToD((u64)a), bitsToD((u64)b), bitsToD((u64)c)));
    case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: {
      double x, y; if (kw == 32) { x = bitsToF((u64)a); y = bitsToF((u64)b); } else { x = bitsToD((u64)a); y = bitsToD((u64)b); }
      return op == O_FOEQ ? x == y : op == O_FOLT ? x < y : op == O_FOLE ? x <= y : (std::isnan(x) || std::isnan(y));
    }
    case O_SITOFP: if (w == 32) return fToBits((float)sx(a, kw)); return dToBits((double)sx(a, kw));
    case O_UITOFP: if (w == 32) return fToBits((float)a); return dToBits((double)a);
    case O_FPTOSI: { double x = kw == 32 ? bitsToF((u64)a) : bitsToD((u64)a);
      if (std::isnan(x) || std::fabs(x) >= 9223372036854775808.0) return ((u128)1 << (w - 1)) & m;
      i64 r = (i64)x; return (u128)(i128)r & m; }
    case O_FPTOUI: { double x = kw == 32 ? bitsToF((u64)a) : bitsToD((u64)a);
      if (std::isnan(x) || x <= -1 || x >= 18446744073709551616.0) return m; if (x >= 9223372036854775808.0) return ((u128)(u64)(x - 9223372036854775808.0) + ((u128)1 << 63)) & m; return (u128)(u64)x & m; }
    case O_FPEXT: return dToBits((double)bitsToF((u64)a));
    case O_FPTRUNC: return fToBits((float)bitsToD((u64)a));
    case O_I2FS: return dToBits(std::ldexp((double)(i64)sx(a, kw), (int)aux - 4096));
    case O_UF1: return dToBits(callUF1(EM.ufNames[ufid], bitsToD((u64)a)));
    case O_UF2: return dToBits(callUF2(EM.ufNames[ufid], bitsToD((u64)a), bitsToD((u64)b)));
    default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
}
static Expr* foldIf(ExprMgr* M, Op op, int w, Expr* a, Expr* b, Expr* c, uint32_t aux) {
  if (a && a->op != O_CONST) return nullptr;
  if (b && b->op != O_CONST) return nullptr;
  if (c && c->op != O_CONST) return nullptr;
  return M->cst(evalOp(op, w, a->w, a->c, b ? b->c : 0, c ? c->c : 0, aux, aux, b ? b->w : 0), w);
}
static inline bool isC(Expr* e) { return e->op == O_CONST; }

static bool polyConstDiff(Expr* a, Expr* b, i128& c);
Expr* ExprMgr::bin(Op op, Expr* a, Expr* b) {
  int w = a->w;
  if (Expr* f = foldIf(this, op, w, a, b, 0, 0)) return f;
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }  // const on the right
  u128 m = maskw(w);
  if (w == 1 && (op == O_ADD || op == O_SUB)) op = O_XOR;
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, a->k[0], cst(a->k[1]->c + b->c, w));
        if (a->op == O_ITE && (isC(a->k[1]) && isC(a->k[2]))) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      } else {
        if (a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, bin(O_ADD, a->k[0], b), a->k[1]);
        if (b->op == O_ADD && isC(b->k[1])) return bin(O_ADD, bin(O_ADD, a, b->k[0]), b->k[1]);
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
      }
      break;
    case O_SUB:
      if (a == b) return cst(0, w);
      if (isC(b)) return bin(O_ADD, a, cst(((u128)0 - b->c), w));
      if (a->op == O_ADD && a->k[0] == b) return a->k[1];
      if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      if (a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, bin(O_SUB, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return bin(O_ADD, bin(O_SUB, a, b->k[0]), cst((u128)0 - b->k[1]->c, w));
      { i128 k; if (!isC(a) && w >= 3 && w <= 64 && polyConstDiff(a, b, k)) return cst((u128)k, w); }
      break;
    case O_MUL:
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) ++s; return bin(O_SHL, a, cst(s, w)); }
        if (a->op == O_MUL && isC(a->k[1])) return bin(O_MUL, a->k[0], cst(a->k[1]->c * b->c, w));
      }
      break;
    case O_UDIV: if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) ++s; return bin(O_LSHR, a, cst(s, w)); }
      break;
    case O_SDIV: if (isC(b) && b->c == 1) return a; break;
    case O_UREM: if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(O_AND, a, cst(b->c - 1, w)); break;
    case O_SREM: if (isC(b) && b->c == 1) return cst(0, w); break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= (u128)w && op != O_ASHR) return cst(0, w);
        if (b->c < (u128)w && a->op == op && isC(a->k[1])) {
          u128 s = a->k[1]->c + b->c;
          if (s >= (u128)w) { if (op != O_ASHR) return cst(0, w); s = w - 1; }
          return bin(op, a->k[0], cst(s, w));
        }
        if (op == O_LSHR && w == 64 && b->c == 32 && (a->op == O_XOR || a->op == O_MUL || a->op == O_ADD)) return zext(extract(a, 32, 32), 64);
        if (op == O_LSHR && a->op == O_ZEXT && b->c >= a->k[0]->w) return cst(0, w);
        if (op == O_LSHR && a->op == O_CONCAT && b->c == a->k[1]->w) return zext(a->k[0], w);
        if (op == O_ASHR && a->op == O_SHL && a->k[1] == b && b->c < (u128)w) return sext(extract(a->k[0], 0, w - (int)b->c), w);
        if (op == O_LSHR && a->op == O_SHL && a->k[1] == b && b->c < (u128)w) return zext(extract(a->k[0], 0, w - (int)b->c), w);
      }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == O_AND && isC(a->k[1])) return bin(O_AND, a->k[0], cst(a->k[1]->c & b->c, w));
        // low mask == zext(extract)
        u128 cc = b->c; if ((cc & (cc + 1)) == 0) { int n = 0; while ((cc >> n) & 1) ++n; return zext(extract(a, 0, n), w); }
        if (a->op == O_ZEXT && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
        if (a->op == O_ZEXT) return zext(bin(O_AND, a->k[0], cst(b->c, a->k[0]->w)), w);
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
      }
      if (w == 1) { if (lnot(a) == b) return F; }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b;
        if (a->op == O_OR && isC(a->k[1])) return bin(O_OR, a->k[0], cst(a->k[1]->c | b->c, w)); }
      if (w == 1) { if (lnot(a) == b) return T; }
      // (x<<n) | zext(y) with y narrower than n == concat
      for (int s = 0; s < 2; ++s) {
        Expr *p = s ? b : a, *q = s ? a : b;
        if (p->op == O_SHL && isC(p->k[1]) && q->op == O_ZEXT) {
          int n = (int)p->k[1]->c;
          if (q->k[0]->w <= n && n < w) return concat(extract(p->k[0], 0, w - n), zext(q->k[0], n));
        }
      }
      break;
    case O_XOR:
      if (a == b) return cst(0, w);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return zext(bin(O_XOR, a->k[0], b->k[0]), w);
      if (w > 1 && !isC(b) && (a->op == O_XOR || b->op == O_XOR)) {  // sums without order: sort the terms, equal terms cancel
        Expr* t[12]; int n = 0; Expr* st[24]; int sp = 0; st[sp++] = a; st[sp++] = b; u128 k = 0; bool ok = true;
        while (sp && ok) { Expr* e = st[--sp]; if (isC(e)) k ^= e->c; else if (e->op == O_XOR && sp + 2 < 24) { st[sp++] = e->k[0]; st[sp++] = e->k[1]; } else if (n < 12) t[n++] = e; else ok = false; }
        if (ok) {
          std::sort(t, t + n, [](Expr* x, Expr* y) { return x->id < y->id; }); int o = 0;
          for (int x = 0; x < n;) { if (x + 1 < n && t[x] == t[x + 1]) x += 2; else t[o++] = t[x++]; }
          Expr* r = nullptr; for (int x = 0; x < o; ++x) r = r ? mk(O_XOR, w, r, t[x]) : t[x];
          if (!r) return cst(k, w); return (k & m) ? bin(O_XOR, r, cst(k, w)) : r;
        }
      }
      if (isC(b)) { if (b->c == 0) return a; if (a->op == O_XOR && isC(a->k[1])) return bin(O_XOR, a->k[0], cst(a->k[1]->c ^ b->c, w));
        if (w == 1) return lnot(a); }
      break;
    default: break;
  }
  return mk(op, w, a, b);
}
Expr* ExprMgr::lnot(Expr* a) {
  if (isC(a)) return a->c ? F : T;
  if (a->op == O_XOR && isC(a->k[1])) return a->k[0];
  return mk(O_XOR, 1, a, T);
}
// ---- integer polynomials: the signed value of an expression as a polynomial over atoms, where no operation overflows
typedef std::map<std::vector<u32>, i128> PolyM;
struct Poly { PolyM m; bool atom = false; };
static std::unordered_map<u32, Poly*> polyMemo;
static const size_t POLYCAP = 1500;
static inline i64 psmin(int w) { return w >= 64 ? INT64_MIN : -((i64)1 << (w - 1)); }
static inline i64 psmax(int w) { return w >= 64 ? INT64_MAX : ((i64)1 << (w - 1)) - 1; }
static int polyDepth = 0;
static bool polyAdd(PolyM& o, const PolyM& b, i128 k) {
  for (auto& t : b) { i128& c = o[t.first]; i128 lim = (i128)1 << 100; if (t.second > lim || t.second < -lim) return false; c += k * t.second; if (c > lim || c < -lim) return false; if (c == 0) o.erase(t.first); }
  return o.size() <= POLYCAP;
}
static Poly* polyOf(Expr* e) {
  auto it = polyMemo.find(e->id); if (it != polyMemo.end()) return it->second;
  Poly* p = new Poly; bool ok = false; int w = e->w; i64 lo = psmin(w), hi = psmax(w);
  if (w <= 64 && polyDepth < 3000) {
    ++polyDepth;
    switch (e->op) {
      case O_CONST: { i128 v = sx(e->c, w); if (v) p->m[{}] = v; ok = true; break; }
      case O_ADD: case O_SUB: {
        Range a = EM.range(e->k[0]), b = EM.range(e->k[1]); i128 l, h; if (e->op == O_ADD) { l = (i128)a.slo + b.slo; h = (i128)a.shi + b.shi; } else { l = (i128)a.slo - b.shi; h = (i128)a.shi - b.slo; }
        if (l < lo || h > hi) break;
        Poly *x = polyOf(e->k[0]), *y = polyOf(e->k[1]); p->m = x->m; ok = polyAdd(p->m, y->m, e->op == O_ADD ? 1 : -1); break; }
      case O_MUL: {
        Range a = EM.range(e->k[0]), b = EM.range(e->k[1]); i128 q[4] = {(i128)a.slo * b.slo, (i128)a.slo * b.shi, (i128)a.shi * b.slo, (i128)a.shi * b.shi}; bool fits = true; for (i128 v : q) if (v < lo || v > hi) fits = false;
        if (!fits) break;
        Poly *x = polyOf(e->k[0]), *y = polyOf(e->k[1]); if (x->m.size() * y->m.size() > 4 * POLYCAP) break;
        ok = true; for (auto& s : x->m) { PolyM t; i128 lim = (i128)1 << 60; if (s.second > lim || s.second < -lim) { ok = false; break; } for (auto& r : y->m) { if (r.second > lim || r.second < -lim) { ok = false; break; } std::vector<u32> v(s.first); v.insert(v.end(), r.first.begin(), r.first.end()); std::sort(v.begin(), v.end()); t[v] = r.second; } if (!ok || !polyAdd(p->m, t, s.second)) { ok = false; break; } }
        break; }
      case O_SHL: {
        if (!isC(e->k[1]) || e->k[1]->c >= 62) break; Range a = EM.range(e->k[0]); i128 f = (i128)1 << (int)e->k[1]->c; if (a.slo * f < lo || a.shi * f > hi) break;
        ok = polyAdd(p->m, polyOf(e->k[0])->m, f); break; }
      case O_SEXT: p->m = polyOf(e->k[0])->m; ok = true; break;
      case O_CONCAT: {
        Expr* l = e->k[1]; if (l->w > 61 || (!isC(l) && EM.range(l).slo < 0)) break;
        ok = polyAdd(p->m, polyOf(e->k[0])->m, (i128)1 << l->w); if (ok && isC(l)) { if (l->c) { PolyM t; t[{}] = (i128)l->c; ok = polyAdd(p->m, t, 1); } } else if (ok) ok = polyAdd(p->m, polyOf(l)->m, 1);
        break; }
      case O_ZEXT: if (e->k[0]->w <= 64 && EM.range(e->k[0]).slo >= 0) { p->m = polyOf(e->k[0])->m; ok = true; } break;
      case O_EXTRACT: if (e->aux == 0 && e->k[0]->w <= 64) { Range a = EM.range(e->k[0]); if (a.slo >= lo && a.shi <= hi) { p->m = polyOf(e->k[0])->m; ok = true; } } break;
      default: break;
    }
    --polyDepth;
  }
  if (!ok) { p->m.clear(); p->m[{(u32)e->id}] = 1; p->atom = true; }
  polyMemo[e->id] = p; return p;
}
static inline bool polyish(Expr* e) { return e->op == O_ADD || e->op == O_SUB || e->op == O_MUL || e->op == O_SHL || e->op == O_SEXT || e->op == O_ZEXT || e->op == O_EXTRACT || e->op == O_CONCAT; }
static bool polyDiff(Expr* a, Expr* b, PolyM& d) { d = polyOf(a)->m; return polyAdd(d, polyOf(b)->m, -1); }
static bool polyConstDiff(Expr* a, Expr* b, i128& c) {
  if (!polyish(a) && !polyish(b)) return false; PolyM d; if (!polyDiff(a, b, d)) return false;
  if (d.empty()) { c = 0; return true; } if (d.size() == 1 && d.begin()->first.empty()) { c = d.begin()->second; return true; } return false;
}
int ExprMgr::polyEq(Expr* a, Expr* b) {
  if (a->w > 64 || a->w < 3) return -1; if (!polyish(a) && !polyish(b)) return -1;
  PolyM d; if (!polyDiff(a, b, d)) return -1;
  if (d.empty()) return 1; if (d.size() == 1 && d.begin()->first.empty()) return 0;
  return -1;
}
static bool eqParts(Expr* e, PolyM& d) { return e->op == O_EQ && e->k[0]->w > 2 && e->k[0]->w <= 64 && polyDiff(e->k[0], e->k[1], d); }
int ExprMgr::polyImplied(const std::vector<Expr*>& pc, Expr* goal) {
  bool neg = false; if (goal->op == O_XOR && goal->w == 1 && isC(goal->k[1])) { neg = true; goal = goal->k[0]; }
  if ((goal->op == O_SLT || goal->op == O_SLE) && goal->k[0]->w >= 3 && goal->k[0]->w <= 64 && (polyish(goal->k[0]) || polyish(goal->k[1]))) {  // sign of the difference by interval arithmetic over its terms
    PolyM d; if (!polyDiff(goal->k[0], goal->k[1], d) || d.size() > 64) return -1;
    i128 lo = 0, hi = 0, lim = (i128)1 << 90;
    for (auto& t : d) { i128 l = t.second, h = t.second; for (u32 id : t.first) { if (all[id]->w > 64) return -1; Range r = range(all[id]); i128 q[4] = {l * r.slo, l * r.shi, h * r.slo, h * r.shi}; l = std::min(std::min(q[0], q[1]), std::min(q[2], q[3])); h = std::max(std::max(q[0], q[1]), std::max(q[2], q[3])); if (l < -((i128)1 << 62) || h > ((i128)1 << 62)) return -1; } lo += l; hi += h; if (lo < -lim || hi > lim) return -1; }
    if (goal->op == O_SLT) { if (hi < 0) return neg ? 0 : 1; if (lo >= 0) return neg ? 1 : 0; } else { if (hi <= 0) return neg ? 0 : 1; if (lo > 0) return neg ? 1 : 0; }
    return -1;
  }
  if (goal->op != O_EQ || goal->k[0]->w < 3) return -1;
  PolyM g; if (!eqParts(goal, g) || g.empty()) return -1;
  for (Expr* e : pc) {
    if (e->op != O_EQ || e->k[0]->w < 3) continue; PolyM q; if (!eqParts(e, q) || q.empty()) continue;
    auto gt = g.rbegin(), qt = q.rbegin(); if (gt->first != qt->first || gt->first.empty()) continue;
    i128 a = gt->second, b = qt->second, lim = (i128)1 << 40; if (a > lim || a < -lim || b > lim || b < -lim) continue;
    PolyM d; if (!polyAdd(d, g, b) || !polyAdd(d, q, -a)) continue;  // b g - a q = constant, q = 0
    if (d.empty()) return neg ? 0 : 1; if (d.size() == 1 && d.begin()->first.empty()) return neg ? 1 : 0;
  }
  return -1;
}
// the value pc gives to x by an equation with a constant
bool ExprMgr::polyValue(const std::vector<Expr*>& pc, Expr* x, i64& v) {
  if (x->w > 64 || x->w < 2) return false; Poly* p = nullptr;
  for (Expr* e : pc) {
    if (e->op != O_EQ || e->k[0]->w < 2 || e->k[0]->w > 64) continue; if (!p) p = polyOf(x); PolyM q, d; if (!polyDiff(e->k[0], e->k[1], q)) continue;
    if (q.empty() || p->m.empty() || q.rbegin()->first != p->m.rbegin()->first) continue; i128 a = q.rbegin()->second, b = p->m.rbegin()->second, lim = (i128)1 << 40; if (a == 0 || b % a || b > lim || b < -lim) continue;
    d = p->m; if (!polyAdd(d, q, -(b / a))) continue; if (d.empty()) { v = 0; return true; } if (d.size() == 1 && d.begin()->first.empty()) { v = (i64)d.begin()->second; return true; }
  }
  return false;
}
Expr* ExprMgr::eq(Expr* a, Expr* b) {
  if (a == b) return T;
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return a->c == b->c ? T : F;
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return b->c ? a : lnot(a); }
  if (isC(b)) {
    if (a->op == O_ZEXT) { if (b->c >> a->k[0]->w) return F; return eq(a->k[0], cst(b->c, a->k[0]->w)); }
    if (a->op == O_SEXT) { Expr* n = cst(b->c, a->k[0]->w); if (((u128)sx(n->c, n->w) & maskw(a->w)) != b->c) return F; return eq(a->k[0], n); }
    if (a->op == O_ADD && isC(a->k[1])) return eq(a->k[0], cst(b->c - a->k[1]->c, a->w));
    if (a->op == O_XOR && isC(a->k[1])) return eq(a->k[0], cst(b->c ^ a->k[1]->c, a->w));
    if (a->op == O_SHL && isC(a->k[1])) { int s = (int)a->k[1]->c; if (s < a->w) { if (b->c & maskw(s)) return F; return eq(extract(a->k[0], 0, a->w - s), cst(b->c >> s, a->w - s)); } }
    if (a->op == O_CONCAT) { int lw = a->k[1]->w; return land(eq(a->k[0], cst(b->c >> lw, a->k[0]->w)), eq(a->k[1], cst(b->c, lw))); }
    if (a->op == O_ITE) {
      bool c1 = isC(a->k[1]), c2 = isC(a->k[2]);
      if (c1 || c2) {
        Expr* x = eq(a->k[1], b); Expr* y = eq(a->k[2], b);
        return ite(a->k[0], x, y);
      }
    }
    if (a->w <= 64) { Range r = range(a); u64 c = (u64)b->c; i64 s = (i64)sx(b->c, a->w); if (c < r.ulo || c > r.uhi || s < r.slo || s > r.shi) return F; }
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
    if (a->op == O_ADD && isC(a->k[1]) && b->op == O_ADD && isC(b->k[1])) return eq(a->k[0], bin(O_ADD, b->k[0], cst(b->k[1]->c - a->k[1]->c, a->w)));
    if (a->w <= 64) { Range r = range(a), q = range(b); if (r.uhi < q.ulo || q.uhi < r.ulo || r.shi < q.slo || q.shi < r.slo) return F; }
  }
  if (!isC(b) || a->op == O_SUB || a->op == O_MUL) { int r = polyEq(a, b); if (r >= 0) return r ? T : F; }
  return mk(O_EQ, 1, a, b);
}
Expr* ExprMgr::cmp(Op op, Expr* a, Expr* b) {
  if (Expr* f = foldIf(this, op, 1, a, b, 0, 0)) return f;
  if (op == O_EQ) return eq(a, b);
  if (a == b) return (op == O_ULE || op == O_SLE) ? T : F;
  if (a->w <= 64) {
    Range r = range(a), q = range(b);
    switch (op) {
      case O_ULT: if (r.uhi < q.ulo) return T; if (r.ulo >= q.uhi) return F; break;
      case O_ULE: if (r.uhi <= q.ulo) return T; if (r.ulo > q.uhi) return F; break;
      case O_SLT: if (r.shi < q.slo) return T; if (r.slo >= q.shi) return F; break;
      case O_SLE: if (r.shi <= q.slo) return T; if (r.slo > q.shi) return F; break;
      default: break;
    }
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) { Op u = (op == O_SLT || op == O_ULT) ? O_ULT : O_ULE; return cmp(u, a->k[0], b->k[0]); }
  if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return cmp(op, a->k[0], b->k[0]);
  if (op == O_ULT && isC(b) && b->c == 1) return eq(a, cst(0, a->w));
  if (op == O_ULE && isC(b) && b->c == 0) return eq(a, b);
  if (op == O_ULE) return lnot(cmp(O_ULT, b, a));
  if (op == O_SLE) return lnot(cmp(O_SLT, b, a));
  return mk(op, 1, a, b);
}
Expr* ExprMgr::ite(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isC(c->k[1])) { c = c->k[0]; std::swap(a, b); }
  if (a->w == 1) {
    if (isC(a)) return a->c ? lor(c, b) : land(lnot(c), b);
    if (isC(b)) return b->c ? lor(lnot(c), a) : land(c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == O_ITE && b->k[1] == a) return ite(lor(c, b->k[0]), a, b->k[2]);
  if (a->op == O_ITE && a->k[2] == b) return ite(land(c, a->k[0]), a->k[1], b);
  return mk(O_ITE, a->w, c, a, b);
}
Expr* ExprMgr::zext(Expr* a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return cst(a->c, w);
  if (a->op == O_ZEXT) return zext(a->k[0], w);
  return mk(O_ZEXT, w, a);
}
Expr* ExprMgr::sext(Expr* a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return cst((u128)sx(a->c, a->w), w);
  if (a->op == O_SEXT) return sext(a->k[0], w);
  if (a->op == O_ZEXT) return zext(a->k[0], w);
  if (a->w <= 64) { Range r = range(a); if (r.slo >= 0) return zext(a, w); }
  return mk(O_SEXT, w, a);
}
Expr* ExprMgr::extract(Expr* a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return cst(a->c >> lo, w);
  if (a->op == O_EXTRACT) return extract(a->k[0], lo + a->aux, w);
  if (a->w <= 64 && lo > 0) { Range r = range(a); if ((r.uhi >> lo) == 0) return cst(0, w); }
  if (a->op == O_ZEXT || a->op == O_SEXT) {
    int kw = a->k[0]->w;
    if (lo + w <= kw) return extract(a->k[0], lo, w);
    if (a->op == O_ZEXT) { if (lo >= kw) return cst(0, w); return zext(extract(a->k[0], lo, kw - lo), w); }
    if (a->op == O_SEXT && lo == 0) return sext(a->k[0], w);
  }
  if (a->op == O_CONCAT) {
    int lw = a->k[1]->w;
    if (lo + w <= lw) return extract(a->k[1], lo, w);
    if (lo >= lw) return extract(a->k[0], lo - lw, w);
    return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
  }
  if (lo == 0 && a->op == O_MUL && isC(a->k[1]) && (a->k[1]->c & maskw(w)) == 0) return cst(0, w);
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
  if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) if (isC(a->k[1])) return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
  if (lo > 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR)) { Expr *x = extract(a->k[0], lo, w), *y = extract(a->k[1], lo, w); if (isC(x) || isC(y)) return bin(a->op, x, y); }
  if (lo > 0 && a->op == O_MUL && isC(a->k[1])) {
    if (lo + w <= 120 && (a->k[1]->c & maskw(lo + w)) == 0) return cst(0, w);
    if ((a->k[1]->c & maskw(lo)) == 0 && lo + w <= a->w) return bin(O_MUL, extract(a->k[0], 0, w), extract(a->k[1], lo, w));
  }
  if (lo > 0 && w >= 8 && w <= 32 && a->op == O_XOR) return bin(O_XOR, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
  if (lo > 0 && a->op == O_ADD && isC(a->k[1]) && (a->k[1]->c & maskw(lo)) == 0) return bin(O_ADD, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
  if (a->op == O_SHL && isC(a->k[1]) && a->k[1]->c < (u128)a->w) {
    int s = (int)a->k[1]->c;
    if (lo >= s) return extract(a->k[0], lo - s, w);
    if (lo + w <= s) return cst(0, w);
    if (lo < s) return concat(extract(a->k[0], 0, lo + w - s), cst(0, s - lo));
  }
  if (a->op == O_LSHR && isC(a->k[1]) && a->k[1]->c < (u128)a->w) { int s = (int)a->k[1]->c; if (lo + s + w <= a->w) return extract(a->k[0], lo + s, w); }
  if (a->op == O_ASHR && isC(a->k[1]) && a->k[1]->c < (u128)a->w) { int s = (int)a->k[1]->c; if (lo + s + w <= a->w) return extract(a->k[0], lo + s, w); }
  if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
  return mk(O_EXTRACT, w, a, 0, 0, lo);
}
Expr* ExprMgr::concat(Expr* hi, Expr* lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return zext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return extract(hi->k[0], lo->aux, w);
  if (hi->op == O_EXTRACT && hi->aux == lo->w && hi->k[0] == lo) return extract(lo, 0, w);
  if (lo->op == O_EXTRACT && lo->aux == 0 && hi->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->w) return extract(lo->k[0], 0, w);
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT) {  // re-associate to join neighbours
    Expr* m = lo->k[0];
    if (m->op == O_EXTRACT && m->k[0] == hi->k[0] && hi->aux == m->aux + m->w) return concat(extract(hi->k[0], m->aux, hi->w + m->w), lo->k[1]);
  }
  return mk(O_CONCAT, w, hi, lo);
}
Expr* ExprMgr::fitw(Expr* i, int w) { return w > i->w ? sext(i, w) : w < i->w ? extract(i, 0, w) : i; }
bool ExprMgr::asScaled(Expr* e, Expr*& i, int& s) {
  if (e->op == O_I2FS) { i = e->k[0]; s = (int)e->aux - 4096; return true; }
  if (e->w != 64) return false;
  if (isC(e)) {
    double d = bitsToD((u64)e->c);
    if (d == 0) { i = cst(0, 1); s = 0; return true; }
    if (!std::isfinite(d)) return false;
    int ex; double m = std::frexp(d, &ex); i64 v = (i64)std::ldexp(m, 53); ex -= 53;
    while (!(v & 1)) { v >>= 1; ++ex; }
    if (ex > 0 && ex < 40) { int k = 0; i64 q = v; while (k < ex && (q < 0 ? -q : q) < ((i64)1 << 51)) { q <<= 1; ++k; } v = q; ex -= k; }
    if (ex < -400 || ex > 400) return false;
    int w = 1; while (w < 64 && (v < -((i64)1 << (w - 1)) || v > ((i64)1 << (w - 1)) - 1)) ++w;
    i = cst((u128)(i128)v, w); s = ex; return true;
  }
  if (e->op == O_CONCAT || e->op == O_OR || e->op == O_ZEXT) {  // assembled from bits with a constant exponent: +-(1.mantissa) 2^e
    Expr* ex = extract(e, 52, 11);
    if (!isC(ex) || ex->c < 600 || ex->c > 1450) return false;
    Expr* m = concat(cst(1, 2), extract(e, 0, 52)); Expr* sg = extract(e, 63, 1);
    i = ite(eq(sg, cst(1, 1)), bin(O_SUB, cst(0, 54), m), m); s = (int)(u64)ex->c - 1075; return true;
  }
  if (e->op == O_ITE) {
    Expr *p, *q; int a, b; if (!asScaled(e->k[1], p, a) || !asScaled(e->k[2], q, b)) return false;
    int m = std::min(a, b); int w = std::max(p->w + a - m, q->w + b - m); if (w > 54) return false;
    p = fitw(p, w); if (a > m) p = bin(O_SHL, p, cst(a - m, w));
    q = fitw(q, w); if (b > m) q = bin(O_SHL, q, cst(b - m, w));
    i = ite(e->k[0], p, q); s = m; return true;
  }
  return false;
}
Expr* ExprMgr::mkScaled(Expr* i, int s) {
  if (s < -1000 || s > 900) return nullptr;
  if (i->w > 64) return nullptr;
  Range r = range(i); i64 L = (i64)1 << 53;
  if (r.slo < -L || r.shi > L) return nullptr;
  int w = 1; while (w < 64 && (r.slo < -((i64)1 << (w - 1)) || r.shi > ((i64)1 << (w - 1)) - 1)) ++w;
  i = fitw(i, std::min<int>(w, i->w));
  if (isC(i)) return cst(evalOp(O_I2FS, 64, i->w, i->c, 0, 0, s + 4096, 0, 0), 64);
  return mk(O_I2FS, 64, i, 0, 0, s + 4096);
}
const std::vector<uint32_t>& ExprMgr::varsOf(Expr* e0) {
  if (vmemo.size() < all.size()) vmemo.resize(all.size() * 3 / 2, nullptr);
  static std::vector<uint32_t> empty;
  if (e0->op == O_CONST) return empty;
  if (vmemo[e0->id]) return *vmemo[e0->id];
  std::vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back();
    if (vmemo[e->id]) { st.pop_back(); continue; }
    if (e->op == O_VAR) { vmemo[e->id] = new std::vector<uint32_t>{e->aux}; st.pop_back(); continue; }
    bool ready = true; int nz = 0; std::vector<uint32_t>* last = nullptr;
    for (int i = 0; i < e->nk; ++i) { Expr* k = e->k[i]; if (k->op == O_CONST) continue; if (!vmemo[k->id]) { st.push_back(k); ready = false; } }
    if (!ready) continue;
    for (int i = 0; i < e->nk; ++i) { Expr* k = e->k[i]; if (k->op == O_CONST) continue; if (vmemo[k->id] != last) { last = vmemo[k->id]; ++nz; } }
    if (nz == 0) { vmemo[e->id] = new std::vector<uint32_t>; }
    else if (nz == 1) vmemo[e->id] = last;
    else {
      std::vector<uint32_t> u;
      for (int i = 0; i < e->nk; ++i) { Expr* k = e->k[i]; if (k->op == O_CONST) continue; auto& v = *vmemo[k->id]; std::vector<uint32_t> t; std::set_union(u.begin(), u.end(), v.begin(), v.end(), std::back_inserter(t)); u.swap(t); }
      for (int i = 0; i < e->nk && !vmemo[e->id]; ++i) { Expr* k = e->k[i]; if (k->op != O_CONST && vmemo[k->id]->size() == u.size()) vmemo[e->id] = vmemo[k->id]; }
      if (!vmemo[e->id]) vmemo[e->id] = new std::vector<uint32_t>(u);
    }
    st.pop_back();
  }
  return *vmemo[e0->id];
}
bool ExprMgr::hasFP(Expr* e0) {  // contains FP arithmetic that is not resolved to integers
  if (fpmemo.size() < all.size()) fpmemo.resize(all.size() * 3 / 2, 0);
  std::vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back();
    if (fpmemo[e->id]) { st.pop_back(); continue; }
    if ((e->op >= O_FADD && e->op <= O_FROUND && e->op != O_FNEG && e->op != O_FABS) || (e->op >= O_SITOFP)) { fpmemo[e->id] = 2; st.pop_back(); continue; }
    bool ready = true; uint8_t r = 1;
    for (int i = 0; i < e->nk; ++i) { Expr* k = e->k[i]; if (!fpmemo[k->id]) { st.push_back(k); ready = false; } else r = std::max(r, fpmemo[k->id]); }
    if (!ready) continue;
    fpmemo[e->id] = r; st.pop_back();
  }
  return fpmemo[e0->id] == 2;
}
// trees of ite with constant leaves: the operation is applied to the leaves
static int constLeaves(Expr* e, int cap) {
  if (isC(e)) return 1;
  if (e->op != O_ITE) return cap + 1;
  int a = constLeaves(e->k[1], cap); if (a > cap) return a;
  return a + constLeaves(e->k[2], cap - a);
}
template <class F> static Expr* mapLeaves(Expr* e, F f) {
  if (isC(e)) return f(e);
  Expr *a = mapLeaves(e->k[1], f), *b = mapLeaves(e->k[2], f);
  return EM.ite(e->k[0], a, b);
}
enum { LEAFCAP = 24 };
Expr* ExprMgr::f1(Op op, Expr* a, int w) {
  if (isC(a)) return cst(evalOp(op, w, a->w, a->c, 0, 0, 0, 0, 0), w);
  if (a->op == O_ITE && a->w > 1 && constLeaves(a, LEAFCAP) <= LEAFCAP) return mapLeaves(a, [&](Expr* x) { return f1(op, x, w); });
  if (intFP) {
    if ((op == O_SITOFP || op == O_UITOFP) && w == 64 && a->w <= 63) { Expr* r = mkScaled(op == O_SITOFP ? a : zext(a, a->w + 1), 0); if (r) return r; }
    if (op == O_SITOFP && w == 64 && a->w == 64) { Expr* r = mkScaled(a, 0); if (r) return r; }
    if (op == O_UITOFP && w == 64 && a->w == 64) { Range q = range(a); if (q.uhi <= ((u64)1 << 53)) { Expr* r = mkScaled(a, 0); if (r) return r; } }
    if ((op == O_SITOFP || op == O_UITOFP) && w == 64) {
      int t = trailingZeros(a); if (t > 0 && t < a->w) { Expr* q = extract(a, t, a->w - t); if (op == O_UITOFP) q = zext(q, q->w + 1); Expr* r = mkScaled(q, t); if (r) return r; }
    }
    Expr* x; int s;
    if ((op == O_FNEG || op == O_FABS) && w == 64 && asScaled(a, x, s) && x->w < 64) {
      x = fitw(x, x->w + 1); Expr* n = bin(O_SUB, cst(0, x->w), x);
      Expr* r = mkScaled(op == O_FNEG ? n : ite(cmp(O_SLT, x, cst(0, x->w)), n, x), s); if (r) return r;
    }
    if ((op == O_FPTOSI || op == O_FPTOUI) && a->w == 64 && asScaled(a, x, s) && s == 0) return fitw(x, w);
    if (op == O_FPTOSI && w == 64 && a->w == 64 && asScaled(a, x, s)) {
      if (s > 0 && x->w + s <= 64) return bin(O_SHL, fitw(x, 64), cst(s, 64));
      if (s < 0 && -s < 64) { x = fitw(x, 64); Expr* n = bin(O_SUB, cst(0, 64), x); Expr* k = cst(-s, 64); return ite(cmp(O_SLT, x, cst(0, 64)), bin(O_SUB, cst(0, 64), bin(O_ASHR, n, k)), bin(O_ASHR, x, k)); }
    }
    if (op == O_FPTOUI && w == 64 && a->w == 64 && asScaled(a, x, s)) {  // below zero is undefined
      if (s > 0 && x->w + s <= 64) return bin(O_SHL, fitw(x, 64), cst(s, 64));
      if (s < 0 && -s < 64 && range(x).slo >= 0) return bin(O_LSHR, fitw(x, 64), cst(-s, 64));
    }
    if ((op == O_FFLOOR || op == O_FCEIL || op == O_FTRUNC || op == O_FRINT || op == O_FROUND) && asScaled(a, x, s) && s >= 0) return a;
    if ((op == O_FFLOOR) && asScaled(a, x, s) && s < 0 && -s < x->w) { Expr* r = mkScaled(bin(O_ASHR, x, cst(-s, x->w)), 0); if (r) return r; }
  }
  if (op == O_FNEG && a->op == O_FNEG) return a->k[0];
  if (op == O_FABS && (a->op == O_FABS || a->op == O_FSQRT)) return a;
  if (op == O_FABS && a->op == O_FNEG) return f1(O_FABS, a->k[0], w);
  return mk(op, w, a);
}
// x / d * 2^sc when every coefficient of x as a polynomial is divisible by the odd part of d
static Expr* polyDivided(Expr* x, i64 d, int sc) {
  while (!(d & 1)) { d /= 2; --sc; }
  Poly* p = polyOf(x); if (p->atom || p->m.size() > 200) return nullptr;
  for (auto& t : p->m) if (t.second % d) return nullptr;
  Expr* r = nullptr;
  for (auto& t : p->m) {
    i128 q = t.second / d; if (q > ((i128)1 << 52) || q < -((i128)1 << 52)) return nullptr;
    Expr* e = EM.cst((u128)q, 64); for (u32 id : t.first) { if (EM.all[id]->w > 64) return nullptr; e = EM.bin(O_MUL, EM.fitw(EM.all[id], 64), e); }
    r = r ? EM.bin(O_ADD, r, e) : e;
  }
  if (!r) return EM.cst(0, 64);
  return EM.mkScaled(r, sc);
}
Expr* ExprMgr::fbin(Op op, Expr* a, Expr* b) {
  if (isC(a) && isC(b)) return cst(evalOp(op, a->w, a->w, a->c, b->c, 0, 0, 0, 0), a->w);
  if (a->op == O_ITE || b->op == O_ITE) {
    int la = constLeaves(a, LEAFCAP), lb = la <= LEAFCAP ? constLeaves(b, LEAFCAP) : LEAFCAP + 1;
    if (la <= LEAFCAP && lb <= LEAFCAP && la * lb <= LEAFCAP) return mapLeaves(a, [&](Expr* x) { return mapLeaves(b, [&](Expr* y) { return fbin(op, x, y); }); });
  }
  if (intFP && a->w == 64 && op != O_FREM) {
    Expr *x, *y; int s, t;
    if (op == O_FDIV) {
      if (isC(b) && asScaled(a, x, s) && asScaled(b, y, t) && isC(y) && sx(y->c, y->w) != 0) {
        i64 d = (i64)sx(y->c, y->w); bool neg = d < 0; u64 ad = neg ? -d : d;
        if (ad & (ad - 1)) if (Expr* r = polyDivided(x, d, s - t)) return r;
        if ((ad & (ad - 1)) == 0) { int k = 0; while ((ad >> k) != 1) ++k; Expr* r = mkScaled(neg ? bin(O_SUB, cst(0, std::min(64, x->w + 1)), fitw(x, std::min(64, x->w + 1))) : x, s - t - k); if (r) return r; }
      }
    } else if (asScaled(a, x, s) && asScaled(b, y, t)) {
      if (op == O_FMUL && (isC(a) || isC(b))) {  // a power of two moves the scale only
        Expr* c = isC(a) ? x : y; Expr* o = isC(a) ? y : x; i64 v = (i64)sx(c->c, c->w); u64 av = v < 0 ? -(u64)v : v;
        if (av && (av & (av - 1)) == 0) { int k = 0; while ((av >> k) != 1) ++k; if (v < 0) o = bin(O_SUB, cst(0, o->w + 1), fitw(o, o->w + 1)); { Expr* r = o->w > 64 ? nullptr : mkScaled(o, s + t + k); if (r) return r; } }
      }
      if (op == O_FMUL) { int w = x->w + y->w; if (w <= 64) { Expr* r = mkScaled(bin(O_MUL, fitw(x, w), fitw(y, w)), s + t); if (r) return r; } }
      else {
        int m = std::min(s, t);
        int w = std::max(x->w + (s - m), y->w + (t - m)) + 1;
        if (w <= 64) {
          Expr* p = fitw(x, w); if (s > m) p = bin(O_SHL, p, cst(s - m, w));
          Expr* q = fitw(y, w); if (t > m) q = bin(O_SHL, q, cst(t - m, w));
          Expr* r = mkScaled(bin(op == O_FADD ? O_ADD : O_SUB, p, q), m); if (r) return r;
        }
      }
    }
  }
  if ((op == O_FADD || op == O_FMUL) && a->id > b->id) std::swap(a, b);
  if (op == O_FMUL || op == O_FDIV) {  // x*1 , x/1 are exact (up to NaN payload)
    if (a->w == 64) {
      if (isC(b) && (u64)b->c == 0x3FF0000000000000ull) return a;
      if (op == O_FMUL && isC(a) && (u64)a->c == 0x3FF0000000000000ull) return b;
    }
  }
  return mk(op, a->w, a, b);
}
Expr* ExprMgr::fcmp(Op op, Expr* a, Expr* b) {
  if (isC(a) && isC(b)) return cst(evalOp(op, 1, a->w, a->c, b->c, 0, 0, 0, 0), 1);
  if (a->op == O_ITE || b->op == O_ITE) {
    int la = constLeaves(a, LEAFCAP), lb = la <= LEAFCAP ? constLeaves(b, LEAFCAP) : LEAFCAP + 1;
    if (la <= LEAFCAP && lb <= LEAFCAP && la * lb <= 2 * LEAFCAP) return mapLeaves(a, [&](Expr* x) { return mapLeaves(b, [&](Expr* y) { return fcmp(op, x, y); }); });
  }
  if ((op == O_FOEQ || op == O_FUNO) && a->id > b->id) std::swap(a, b);
  if (a == b && op == O_FOLT) return F;
  if (intFP && a->w == 64) {
    // x/c and x*c keep the sign of x for a constant c > 0 when nothing can underflow
    auto strip = [&](Expr* e) { for (;;) { Expr *x; int s;
      if ((e->op == O_FDIV || e->op == O_FMUL)) { Expr *p = e->k[0], *c = e->k[1]; if (e->op == O_FMUL && isC(p)) std::swap(p, c);
        if (isC(c)) { double d = bitsToD((u64)c->c); if (d > 1e-3 && d < 1e3) { Expr* q = p; if (q->op == O_FDIV || q->op == O_FMUL) { /* nested */ } if (asScaled(q, x, s) && s > -300 && s < 300) return q; } } }
      return e; } };
    if (isC(b) && (u64)(b->c << 1) == 0) a = strip(a);
    else if (isC(a) && (u64)(a->c << 1) == 0) b = strip(b);
    Expr *x, *y; int s, t;
    if (asScaled(a, x, s) && asScaled(b, y, t)) {
      if (op == O_FUNO) return F;
      int m = std::min(s, t); int w = std::max(x->w + (s - m), y->w + (t - m));
      if (w <= 128) {
        Expr* p = fitw(x, w); if (s > m) p = bin(O_SHL, p, cst(s - m, w));
        Expr* q = fitw(y, w); if (t > m) q = bin(O_SHL, q, cst(t - m, w));
        if (op == O_FOEQ) return eq(p, q);
        return cmp(op == O_FOLT ? O_SLT : O_SLE, p, q);
      }
    }
    // against any other finite constant: compare with its floor or ceiling in units of the scale
    else for (int side = 0; side < 2; ++side) {
      Expr *c = side ? a : b, *v = side ? b : a; if (!isC(c) || !asScaled(v, x, s) || x->w > 63) continue;
      double d = bitsToD((u64)c->c); if (op == O_FUNO) return d != d ? T : F; if (d != d) return F;
      double q = std::ldexp(d, -s); if (!(std::fabs(q) < 0x1p62) || std::fabs(q) < 1e-290) continue;
      double f = std::floor(q); if (op == O_FOEQ) { if (f != q) return F; return eq(fitw(x, 64), cst((u128)(i128)(i64)f, 64)); }
      bool lt = op == O_FOLT; // v < c: v < ceil; v <= c: v <= floor; c < v: floor < v; c <= v: ceil <= v
      bool up = side ? !lt : lt; Expr* k = cst((u128)(i128)(i64)(up ? std::ceil(q) : f), 64); Expr* w64 = fitw(x, 64);
      return side ? cmp(lt ? O_SLT : O_SLE, k, w64) : cmp(lt ? O_SLT : O_SLE, w64, k);
    }
  }
  if (op == O_FUNO) {  // integer conversions are never NaN
    auto nn = [](Expr* e) { return e->op == O_SITOFP || e->op == O_UITOFP || (e->op == O_CONST && !(bitsToD((u64)e->c) != bitsToD((u64)e->c))); };
    if (a->w == 64 && nn(a) && nn(b)) return F;
  }
  return mk(op, 1, a, b);
}
Expr* ExprMgr::uf(const std::string& f, Expr* a, Expr* b) {
  auto it = ufIds.find(f); uint32_t id;
  if (it == ufIds.end()) { id = ufNames.size(); ufNames.push_back(f); ufIds[f] = id; } else id = it->second;
  if (isC(a) && (!b || isC(b))) return cst(evalOp(b ? O_UF2 : O_UF1, 64, 64, a->c, b ? b->c : 0, 0, 0, id, 64), 64);
  if (!b && a->op == O_ITE && constLeaves(a, LEAFCAP) <= LEAFCAP) return mapLeaves(a, [&](Expr* x) { return uf(f, x, b); });
  return mk(b ? O_UF2 : O_UF1, 64, a, b, 0, id);
}

static inline i64 smin(int w) { return w >= 64 ? INT64_MIN : -((i64)1 << (w - 1)); }
static inline i64 smax(int w) { return w >= 64 ? INT64_MAX : ((i64)1 << (w - 1)) - 1; }
static inline u64 umax(int w) { return w >= 64 ? ~0ull : (((u64)1 << w) - 1); }
Range full(int w) { return Range{0, umax(w), smin(w), smax(w)}; }
static void tighten(Range& r, int w) {  // propagate between the two views
  if (r.slo >= 0) { r.ulo = std::max(r.ulo, (u64)r.slo); r.uhi = std::min(r.uhi, (u64)r.shi); }
  else if (r.shi < 0) { u64 m = umax(w); r.ulo = std::max(r.ulo, (u64)r.slo & m); r.uhi = std::min(r.uhi, (u64)r.shi & m); }
  if (r.uhi <= (u64)smax(w)) { r.slo = std::max(r.slo, (i64)r.ulo); r.shi = std::min(r.shi, (i64)r.uhi); }
  else if (r.ulo > (u64)smax(w)) { u64 m = ~umax(w); r.slo = std::max(r.slo, (i64)(r.ulo | m)); r.shi = std::min(r.shi, (i64)(r.uhi | m)); }
}
Range ExprMgr::range(Expr* e) {
  int w = e->w;
  if (w > 64) return Range{0, ~0ull, INT64_MIN, INT64_MAX};
  if (e->op == O_CONST) { i64 s = (i64)sx(e->c, w); return Range{(u64)e->c, (u64)e->c, s, s}; }
  if (e->id < rhas.size() && rhas[e->id]) return rmemo[e->id];
  Range r = full(w);
  auto setS = [&](i128 lo, i128 hi) { if (lo >= smin(w) && hi <= smax(w)) { r.slo = (i64)lo; r.shi = (i64)hi; } };
  auto setU = [&](u128 lo, u128 hi) { if (hi <= umax(w)) { r.ulo = (u64)lo; r.uhi = (u64)hi; } };
  switch (e->op) {
    case O_VAR: { VarInfo& v = vars[e->aux]; if (v.hasRange) { r.slo = v.lo; r.shi = v.hi; } break; }
    case O_ADD: { Range a = range(e->k[0]), b = range(e->k[1]); setS((i128)a.slo + b.slo, (i128)a.shi + b.shi); setU((u128)a.ulo + b.ulo, (u128)a.uhi + b.uhi); break; }
    case O_SUB: { Range a = range(e->k[0]), b = range(e->k[1]); setS((i128)a.slo - b.shi, (i128)a.shi - b.slo); if (a.ulo >= b.uhi) setU((u128)a.ulo - b.uhi, (u128)a.uhi - b.ulo); break; }
    case O_MUL: { Range a = range(e->k[0]), b = range(e->k[1]); i128 p[4] = {(i128)a.slo * b.slo, (i128)a.slo * b.shi, (i128)a.shi * b.slo, (i128)a.shi * b.shi};
      setS(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); setU((u128)a.ulo * b.ulo, (u128)a.uhi * b.uhi); break; }
    case O_SHL: if (isC(e->k[1]) && e->k[1]->c < 64) { Range a = range(e->k[0]); int s = (int)e->k[1]->c; setS((i128)a.slo << s, (i128)a.shi << s); setU((u128)a.ulo << s, (u128)a.uhi << s); } break;
    case O_LSHR: if (isC(e->k[1]) && e->k[1]->c < (u128)w) { Range a = range(e->k[0]); int s = (int)e->k[1]->c; setU(a.ulo >> s, a.uhi >> s); } else { Range a = range(e->k[0]); setU(0, a.uhi); } break;
    case O_ASHR: if (isC(e->k[1]) && e->k[1]->c < (u128)w) { Range a = range(e->k[0]); int s = (int)e->k[1]->c; setS(a.slo >> s, a.shi >> s); } break;
    case O_UDIV: if (isC(e->k[1]) && e->k[1]->c) { Range a = range(e->k[0]); setU(a.ulo / (u64)e->k[1]->c, a.uhi / (u64)e->k[1]->c); } break;
    case O_SDIV: if (isC(e->k[1]) && sx(e->k[1]->c, w) > 0) { Range a = range(e->k[0]); i64 d = (i64)sx(e->k[1]->c, w); setS(a.slo / d, a.shi / d); } break;
    case O_UREM: { Range b = range(e->k[1]); if (b.ulo > 0) { Range a = range(e->k[0]); setU(0, std::min(b.uhi - 1, a.uhi)); } break; }
    case O_SREM: { Range b = range(e->k[1]), a = range(e->k[0]); if (b.slo > 0) { i64 mx = b.shi - 1; setS(a.slo < 0 ? std::max(-mx, a.slo) : 0, a.shi > 0 ? std::min(mx, a.shi) : 0); } break; }
    case O_AND: { Range a = range(e->k[0]), b = range(e->k[1]); setU(0, std::min(a.uhi, b.uhi)); break; }
    case O_OR: { Range a = range(e->k[0]), b = range(e->k[1]); u64 x = a.uhi | b.uhi; u64 m = 0; while (x) { m = (m << 1) | 1; x >>= 1; } setU(std::max(a.ulo, b.ulo), std::min<u64>(m, umax(w))); break; }
    case O_XOR: { if (w > 1) { Range a = range(e->k[0]), b = range(e->k[1]); u64 x = a.uhi | b.uhi; u64 m = 0; while (x) { m = (m << 1) | 1; x >>= 1; } setU(0, std::min<u64>(m, umax(w))); } break; }
    case O_ITE: { Range a = range(e->k[1]), b = range(e->k[2]); r.slo = std::min(a.slo, b.slo); r.shi = std::max(a.shi, b.shi); r.ulo = std::min(a.ulo, b.ulo); r.uhi = std::max(a.uhi, b.uhi);
      Expr *c = e->k[0], *p = e->k[1], *q = e->k[2];  // |x|
      if (c->op == O_SLT) {
        bool ab = (isC(c->k[1]) && c->k[1]->c <= 1 && c->k[0] == q && p->op == O_SUB && isC(p->k[0]) && p->k[0]->c == 0 && p->k[1] == q) ||
                  (isC(c->k[0]) && (c->k[0]->c == 0 || c->k[0]->c == maskw(c->k[0]->w)) && c->k[1] == p && q->op == O_SUB && isC(q->k[0]) && q->k[0]->c == 0 && q->k[1] == p);
        if (ab) { Range x = range(c->k[isC(c->k[1]) ? 0 : 1]); if (x.slo > smin(w)) { i64 m = std::max(x.shi, -x.slo); r.slo = std::max<i64>(r.slo, 0); r.shi = std::min(r.shi, m); r.ulo = 0; r.uhi = std::min<u64>(r.uhi, (u64)m); } }
      }
      break; }
    case O_ZEXT: { Range a = range(e->k[0]); setU(a.ulo, a.uhi); break; }
    case O_SEXT: { Range a = range(e->k[0]); setS(a.slo, a.shi); break; }
    case O_EXTRACT: if (e->aux == 0 && e->k[0]->w <= 64) { Range a = range(e->k[0]); if (a.uhi <= umax(w)) setU(a.ulo, a.uhi); if (a.slo >= smin(w) && a.shi <= smax(w)) setS(a.slo, a.shi); } break;
    case O_CONCAT: { Range a = range(e->k[0]), b = range(e->k[1]); int s = e->k[1]->w; if (s < 62) setS(((i128)a.slo << s) + (i128)b.ulo, ((i128)a.shi << s) + (i128)b.uhi); if (s < 64) setU(((u128)a.ulo << s) + b.ulo, ((u128)a.uhi << s) + b.uhi); break; }
    default: break;
  }
  tighten(r, w); tighten(r, w);
  if (e->id >= rhas.size()) { size_t n = std::max<size_t>(all.size() + 1024, e->id + 1) * 3 / 2; rhas.resize(n, 0); rmemo.resize(n); }
  rhas[e->id] = 1; rmemo[e->id] = r;
  return r;
}
static std::vector<int16_t> tzMemo;
int ExprMgr::trailingZeros(Expr* e) {
  if (e->op == O_CONST) return tz1(e);
  if (e->id < tzMemo.size() && tzMemo[e->id] >= 0) return tzMemo[e->id];
  int r = tz1(e);
  if (e->id >= tzMemo.size()) tzMemo.resize(std::max<size_t>(all.size() + 1024, e->id + 1) * 3 / 2, -1);
  tzMemo[e->id] = (int16_t)r; return r;
}
int ExprMgr::tz1(Expr* e) {
  switch (e->op) {
    case O_CONST: { if (e->c == 0) return e->w; int n = 0; while (!((e->c >> n) & 1)) ++n; return n; }
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case O_MUL: return std::min<int>(e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case O_SHL: if (isC(e->k[1])) return std::min<int>(e->w, trailingZeros(e->k[0]) + (int)e->k[1]->c); return 0;
    case O_AND: return std::max(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case O_ZEXT: case O_SEXT: { int t = trailingZeros(e->k[0]); return t >= e->k[0]->w ? e->w : t; }
    case O_ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    case O_CONCAT: { int t = trailingZeros(e->k[1]); return t >= e->k[1]->w ? t + trailingZeros(e->k[0]) : t; }
    case O_EXTRACT: { int t = trailingZeros(e->k[0]); return std::max(0, std::min<int>(e->w, t - (int)e->aux)); }
    default: return 0;
  }
}
u128 ExprMgr::eval(Expr* e, const Assign& m) { newEpoch(); return evalIn(e, m); }
u128 ExprMgr::evalIn(Expr* e0, const Assign& m) {
  if (e0->op == O_CONST) return e0->c;
  if (memoT.size() < all.size()) { memoT.resize(all.size() * 3 / 2, 0); memoV.resize(memoT.size()); }
  if (memoT[e0->id] == epoch) return memoV[e0->id];
  // iterative post-order (DAGs can be deep)
  std::vector<Expr*> st; st.push_back(e0);
  while (!st.empty()) {
    Expr* e = st.back();
    if (memoT[e->id] == epoch) { st.pop_back(); continue; }
    if (e->op == O_CONST) { memoT[e->id] = epoch; memoV[e->id] = e->c; st.pop_back(); continue; }
    if (e->op == O_VAR) { memoT[e->id] = epoch; memoV[e->id] = m.get(e->aux) & maskw(e->w); st.pop_back(); continue; }
    if (e->op == O_ITE) {
      Expr* c = e->k[0];
      if (c->op != O_CONST && memoT[c->id] != epoch) { st.push_back(c); continue; }
      u128 cv = c->op == O_CONST ? c->c : memoV[c->id];
      Expr* t = cv ? e->k[1] : e->k[2];
      if (t->op != O_CONST && memoT[t->id] != epoch) { st.push_back(t); continue; }
      memoV[e->id] = t->op == O_CONST ? t->c : memoV[t->id]; memoT[e->id] = epoch; st.pop_back(); continue;
    }
    bool ready = true;
    for (int i = 0; i < e->nk; ++i) { Expr* k = e->k[i]; if (k->op != O_CONST && memoT[k->id] != epoch) { st.push_back(k); ready = false; } }
    if (!ready) continue;
    u128 a[3] = {0, 0, 0};
    for (int i = 0; i < e->nk; ++i) a[i] = e->k[i]->op == O_CONST ? e->k[i]->c : memoV[e->k[i]->id];
    memoV[e->id] = evalOp(e->op, e->w, e->k[0]->w, a[0], a[1], a[2], e->aux, e->aux, e->nk > 1 ? e->k[1]->w : 0);
    memoT[e->id] = epoch; st.pop_back();
  }
  return memoV[e0->id];
}
void ExprMgr::collectVars(Expr* e, std::unordered_set<uint32_t>& out) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op == O_VAR) out.insert(x->aux); for (int i = 0; i < x->nk; ++i) st.push_back(x->k[i]); }
}
std::string toStr(Expr* e, int d) {
  char b[64];
  if (e->op == O_CONST) { if (e->w <= 64) snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); else snprintf(b, 64, "0x%llx%016llx:%d", (unsigned long long)(e->c >> 64), (unsigned long long)e->c, e->w); return b; }
  if (e->op == O_VAR) return EM.vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = "("; s += opName[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, 64, "[%d+%d]", e->aux, e->w); s += b; }
  if (e->op == O_ZEXT || e->op == O_SEXT) { snprintf(b, 64, "%d", e->w); s += b; }
  if (e->op == O_UF1 || e->op == O_UF2) s += ":" + EM.ufNames[e->aux];
  for (int i = 0; i < e->nk; ++i) s += " " + toStr(e->k[i], d - 1);
  return s + ")";
}
