#include <time.h>
#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <algorithm>
#include <array>
Solver SV;
bool solverVerbose = false;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u64>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };

struct Solver::Impl {
  Z3_context c;
  Z3_sort fp64, fp32;
  Z3_ast rne, rtz, rtp, rtn, rna;
  std::vector<Z3_ast> bv[2], fp;     // memo: [0] UF mode, [1] FPA mode
  std::map<std::array<uint64_t, 3>, Z3_func_decl> ufs;
  std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
  Z3_solver inc = nullptr; std::vector<Expr*> incStack; u64 incCount = 0;
  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "osym: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
  Impl() {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg); Z3_set_error_handler(c, onErr);
    fp64 = Z3_mk_fpa_sort_double(c); fp32 = Z3_mk_fpa_sort_single(c);
    rne = Z3_mk_fpa_rne(c); rtz = Z3_mk_fpa_rtz(c); rtp = Z3_mk_fpa_rtp(c); rtn = Z3_mk_fpa_rtn(c); rna = Z3_mk_fpa_rna(c);
  }
  Z3_ast num(u128 v, int w) {
    Z3_sort s = Z3_mk_bv_sort(c, w);
    if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
    return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64)), Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64)));
  }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, num(1, 1), num(0, 1)); }
  // booleans (width 1) are kept as Z3 Bool
  Z3_ast toBV(Z3_ast x, int w) { return w == 1 ? b2v(x) : x; }
  Z3_ast ufApp(Op op, uint32_t aux, int w, Z3_ast a, int wa, Z3_ast b, int wb) {
    std::array<uint64_t, 3> k{(u64)op << 32 | aux, (u64)w << 32 | wa, (u64)wb};
    auto it = ufs.find(k); Z3_func_decl f;
    if (it == ufs.end()) {
      char nm[64]; snprintf(nm, 64, "uf_%s_%u_%d_%d_%d", opName[op], aux, w, wa, wb);
      Z3_sort d[2] = {Z3_mk_bv_sort(c, wa), wb ? Z3_mk_bv_sort(c, wb) : nullptr};
      f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm), wb ? 2 : 1, d, Z3_mk_bv_sort(c, w)); ufs[k] = f;
    } else f = it->second;
    Z3_ast args[2] = {toBV(a, wa), b ? toBV(b, wb) : nullptr};
    return Z3_mk_app(c, f, wb ? 2 : 1, args);
  }
  Z3_ast isNaNbv(Z3_ast x, int w) {  // exponent all ones, mantissa nonzero
    int mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8;
    Z3_ast ex = Z3_mk_extract(c, w - 2, mb, x), ma = Z3_mk_extract(c, mb - 1, 0, x);
    Z3_ast a2[2] = {Z3_mk_eq(c, ex, num(maskw(eb), eb)), Z3_mk_not(c, Z3_mk_eq(c, ma, num(0, mb)))};
    return Z3_mk_and(c, 2, a2);
  }
  Z3_ast zeroBV(Z3_ast x, int w) { return Z3_mk_eq(c, Z3_mk_extract(c, w - 2, 0, x), num(0, w - 1)); }
  Z3_ast AND(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); }
  Z3_ast OR(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(c, 2, x); }
  Z3_ast NOT(Z3_ast a) { return Z3_mk_not(c, a); }
  Z3_ast fcmpBV(Op op, Z3_ast x, Z3_ast y, int w) {
    Z3_ast nan = OR(isNaNbv(x, w), isNaNbv(y, w));
    if (op == O_FUNO) return nan;
    Z3_ast bz = AND(zeroBV(x, w), zeroBV(y, w));
    if (op == O_FOEQ) return AND(NOT(nan), OR(bz, Z3_mk_eq(c, x, y)));
    // total order key: flip
    auto key = [&](Z3_ast v) { Z3_ast s = Z3_mk_eq(c, Z3_mk_extract(c, w - 1, w - 1, v), num(1, 1)); return Z3_mk_ite(c, s, Z3_mk_bvnot(c, v), Z3_mk_bvor(c, v, num((u128)1 << (w - 1), w))); };
    Z3_ast lt = Z3_mk_bvult(c, key(x), key(y));
    if (op == O_FOLT) return AND(NOT(nan), AND(NOT(bz), lt));
    return AND(NOT(nan), OR(bz, OR(lt, Z3_mk_eq(c, x, y))));
  }
  Z3_sort fsort(int w) { return w == 64 ? fp64 : fp32; }
  Z3_ast FP(Expr* e) {  // floating-point sorted translation of e (FPA mode)
    if (fp.size() < EM.all.size()) fp.resize(EM.all.size() * 3 / 2, nullptr);
    if (fp[e->id]) return fp[e->id];
    Z3_ast r;
    switch (e->op) {
      case O_FADD: r = Z3_mk_fpa_add(c, rne, FP(e->k[0]), FP(e->k[1])); break;
      case O_FSUB: r = Z3_mk_fpa_sub(c, rne, FP(e->k[0]), FP(e->k[1])); break;
      case O_FMUL: r = Z3_mk_fpa_mul(c, rne, FP(e->k[0]), FP(e->k[1])); break;
      case O_FDIV: r = Z3_mk_fpa_div(c, rne, FP(e->k[0]), FP(e->k[1])); break;
      case O_FMA: r = Z3_mk_fpa_fma(c, rne, FP(e->k[0]), FP(e->k[1]), FP(e->k[2])); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt(c, rne, FP(e->k[0])); break;
      case O_FNEG: r = Z3_mk_fpa_neg(c, FP(e->k[0])); break;
      case O_FABS: r = Z3_mk_fpa_abs(c, FP(e->k[0])); break;
      case O_FFLOOR: r = Z3_mk_fpa_round_to_integral(c, rtn, FP(e->k[0])); break;
      case O_FCEIL: r = Z3_mk_fpa_round_to_integral(c, rtp, FP(e->k[0])); break;
      case O_FTRUNC: r = Z3_mk_fpa_round_to_integral(c, rtz, FP(e->k[0])); break;
      case O_FRINT: r = Z3_mk_fpa_round_to_integral(c, rne, FP(e->k[0])); break;
      case O_FROUND: r = Z3_mk_fpa_round_to_integral(c, rna, FP(e->k[0])); break;
      case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(c, rne, toBV(BV(e->k[0], 1), e->k[0]->w), fsort(e->w)); break;
      case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(c, rne, toBV(BV(e->k[0], 1), e->k[0]->w), fsort(e->w)); break;
      case O_I2FS: { r = Z3_mk_fpa_to_fp_signed(c, rne, toBV(BV(e->k[0], 1), e->k[0]->w), fp64); int s = (int)e->aux - 4096;
        if (s) { u64 p = (u64)(1023 + s) << 52; r = Z3_mk_fpa_mul(c, rne, r, Z3_mk_fpa_to_fp_bv(c, num(p, 64), fp64)); } break; }
      case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(c, rne, FP(e->k[0]), fsort(e->w)); break;
      case O_ITE: r = Z3_mk_ite(c, BV(e->k[0], 1), FP(e->k[1]), FP(e->k[2])); break;
      default: r = Z3_mk_fpa_to_fp_bv(c, BV(e, 1), fsort(e->w));
    }
    if (fp.size() < EM.all.size()) fp.resize(EM.all.size() * 3 / 2, nullptr);
    return fp[e->id] = r;
  }
  static bool isFPop(Expr* e) { return (e->op >= O_FADD && e->op <= O_FROUND) || e->op == O_SITOFP || e->op == O_UITOFP || e->op == O_I2FS || e->op == O_FPEXT || e->op == O_FPTRUNC; }
  // mode 0: FP arithmetic uninterpreted; mode 1: FPA
  Z3_ast BV(Expr* e0, int mode) {
    auto& M = bv[mode];
    if (M.size() < EM.all.size()) M.resize(EM.all.size() * 3 / 2, nullptr);
    if (M[e0->id]) return M[e0->id];
    std::vector<Expr*> st{e0};
    while (!st.empty()) {
      Expr* e = st.back();
      if (M[e->id]) { st.pop_back(); continue; }
      bool viaFP = mode == 1 && (isFPop(e) || e->op == O_FOEQ || e->op == O_FOLT || e->op == O_FOLE || e->op == O_FUNO || e->op == O_FPTOSI || e->op == O_FPTOUI) && e->op != O_FNEG && e->op != O_FABS;
      if (!viaFP) { bool ready = true; for (int i = 0; i < e->nk; ++i) if (!M[e->k[i]->id]) { st.push_back(e->k[i]); ready = false; } if (!ready) continue; }
      Z3_ast r = viaFP ? mkFPA(e) : mkBV(e, mode);
      M[e->id] = r; st.pop_back();
    }
    return M[e0->id];
  }
  Z3_ast mkFPA(Expr* e) {
    switch (e->op) {
      case O_FOEQ: return Z3_mk_fpa_eq(c, FP(e->k[0]), FP(e->k[1]));
      case O_FOLT: return Z3_mk_fpa_lt(c, FP(e->k[0]), FP(e->k[1]));
      case O_FOLE: return Z3_mk_fpa_leq(c, FP(e->k[0]), FP(e->k[1]));
      case O_FUNO: return OR(Z3_mk_fpa_is_nan(c, FP(e->k[0])), Z3_mk_fpa_is_nan(c, FP(e->k[1])));
      case O_FPTOSI: return Z3_mk_fpa_to_sbv(c, rtz, FP(e->k[0]), e->w);
      case O_FPTOUI: return Z3_mk_fpa_to_ubv(c, rtz, FP(e->k[0]), e->w);
      default: return Z3_mk_fpa_to_ieee_bv(c, FP(e));
    }
  }
  Z3_ast mkBV(Expr* e, int mode) {
    auto& M = bv[mode];
    int w = e->w;
    Z3_ast a = e->nk > 0 ? M[e->k[0]->id] : nullptr, b = e->nk > 1 ? M[e->k[1]->id] : nullptr, d = e->nk > 2 ? M[e->k[2]->id] : nullptr;
    switch (e->op) {
      case O_CONST: return w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : num(e->c, w);
      case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", e->aux); return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w)); }
      case O_ADD: return Z3_mk_bvadd(c, a, b); case O_SUB: return Z3_mk_bvsub(c, a, b);
      case O_MUL: return w == 1 ? AND(a, b) : Z3_mk_bvmul(c, a, b);
      case O_UDIV: return Z3_mk_bvudiv(c, a, b); case O_SDIV: return Z3_mk_bvsdiv(c, a, b);
      case O_UREM: return Z3_mk_bvurem(c, a, b); case O_SREM: return Z3_mk_bvsrem(c, a, b);
      case O_SHL: return Z3_mk_bvshl(c, a, b); case O_LSHR: return Z3_mk_bvlshr(c, a, b); case O_ASHR: return Z3_mk_bvashr(c, a, b);
      case O_AND: return w == 1 ? AND(a, b) : Z3_mk_bvand(c, a, b);
      case O_OR: return w == 1 ? OR(a, b) : Z3_mk_bvor(c, a, b);
      case O_XOR: return w == 1 ? (e->k[1]->op == O_CONST ? NOT(a) : Z3_mk_xor(c, a, b)) : Z3_mk_bvxor(c, a, b);
      case O_EQ: return Z3_mk_eq(c, a, b);
      case O_ULT: return Z3_mk_bvult(c, toBV(a, e->k[0]->w), toBV(b, e->k[0]->w)); case O_ULE: return Z3_mk_bvule(c, toBV(a, e->k[0]->w), toBV(b, e->k[0]->w));
      case O_SLT: return Z3_mk_bvslt(c, toBV(a, e->k[0]->w), toBV(b, e->k[0]->w)); case O_SLE: return Z3_mk_bvsle(c, toBV(a, e->k[0]->w), toBV(b, e->k[0]->w));
      case O_ITE: return Z3_mk_ite(c, a, b, d);
      case O_ZEXT: if (e->k[0]->w == 1) return Z3_mk_ite(c, a, num(1, w), num(0, w)); return Z3_mk_zero_ext(c, w - e->k[0]->w, a);
      case O_SEXT: if (e->k[0]->w == 1) return Z3_mk_ite(c, a, num(maskw(w), w), num(0, w)); return Z3_mk_sign_ext(c, w - e->k[0]->w, a);
      case O_EXTRACT: { Z3_ast x = Z3_mk_extract(c, e->aux + w - 1, e->aux, a); return w == 1 ? Z3_mk_eq(c, x, num(1, 1)) : x; }
      case O_CONCAT: return Z3_mk_concat(c, toBV(a, e->k[0]->w), toBV(b, e->k[1]->w));
      case O_FNEG: return Z3_mk_bvxor(c, a, num((u128)1 << (w - 1), w));
      case O_FABS: return Z3_mk_bvand(c, a, num(maskw(w) >> 1, w));
      case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: return fcmpBV(e->op, a, b, e->k[0]->w);
      default: {
        if (e->nk == 3) { Z3_ast q = ufApp(e->op, 1, w, a, e->k[0]->w, b, e->k[1]->w); return ufApp(e->op, 2, w, q, w, d, e->k[2]->w); }
        Z3_ast r = ufApp(e->op, e->aux, w, a, e->k[0]->w, b, b ? e->k[1]->w : 0);
        return w == 1 ? Z3_mk_eq(c, r, num(1, 1)) : r;
      }
    }
  }
  void readModel(Z3_model m, const std::vector<uint32_t>& vars, Assign& out) {
    Z3_model_inc_ref(c, m);
    for (uint32_t v : vars) {
      Expr* e = EM.vars[v].e; Z3_ast a = BV(e, 0), r; u64 val = 0;
      if (Z3_model_eval(c, m, a, true, &r) && r) {
        if (e->w == 1) val = Z3_get_bool_value(c, r) == Z3_L_TRUE;
        else { uint64_t q; if (Z3_get_numeral_uint64(c, r, &q)) val = q; }
      }
      out.set(v, val);
    }
    Z3_model_dec_ref(c, m);
  }
  void setParams(Z3_solver s, unsigned rl) {
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "rlimit"), rl);
    double left = SV.deadline - nowS(); if (left < 0.05) left = 0.05; if (left > 600) left = 600;
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned)(left * 1000));
    Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
  }
};
Solver::Solver() : I(new Impl) {}

static Res conv(Z3_lbool b) { return b == Z3_L_TRUE ? R_SAT : b == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN; }

Res Solver::solveSlice(const std::vector<Expr*>& sl, Expr* extra, Assign& out) {
  bool fpx = EM.hasFP(extra);
  if (!fpx) for (Expr* e : sl) if (EM.hasFP(e)) { fpx = true; break; }
  std::vector<uint32_t> vars;
  { std::unordered_set<uint32_t> s; for (Expr* e : sl) for (auto v : EM.varsOf(e)) s.insert(v); for (auto v : EM.varsOf(extra)) s.insert(v); vars.assign(s.begin(), s.end()); }
  auto validate = [&](Assign& m) { EM.newEpoch(); if (!EM.evalIn(extra, m)) return false; for (Expr* e : sl) if (!EM.evalIn(e, m)) return false; return true; };
  Z3_context c = I->c;
  Res r;
  struct Slow { Expr* x; size_t n; timespec a; static bool on() { static bool v = getenv("OSYM_DUMP"); return v; } Slow(Expr* e, size_t k) : x(e), n(k) { if (on()) clock_gettime(CLOCK_MONOTONIC, &a); } ~Slow() { if (!on()) return; timespec b; clock_gettime(CLOCK_MONOTONIC, &b); double d = double(b.tv_sec - a.tv_sec) + 1e-9 * double(b.tv_nsec - a.tv_nsec); if (d > 1) fprintf(stderr, "osym: slow query %.1fs, %zu conjuncts: %s\n", d, n, toStr(x, 14).c_str()); } } slow(extra, sl.size());
  if (!fpx) {
    if (!I->inc || I->incCount > 20000) {
      if (I->inc) Z3_solver_dec_ref(c, I->inc);
      I->inc = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, I->inc); I->setParams(I->inc, rlimit); I->incStack.clear(); I->incCount = 0;
    }
    auto& S = I->incStack; size_t p = 0;
    while (p < S.size() && p < sl.size() && S[p] == sl[p]) ++p;
    if (S.size() > p) { Z3_solver_pop(c, I->inc, S.size() - p); S.resize(p); }
    for (; p < sl.size(); ++p) { Z3_solver_push(c, I->inc); Z3_solver_assert(c, I->inc, I->BV(sl[p], 0)); S.push_back(sl[p]); ++I->incCount; }
    Z3_solver_push(c, I->inc); Z3_solver_assert(c, I->inc, I->BV(extra, 0));
    r = conv(Z3_solver_check(c, I->inc));
    if (r == R_SAT) I->readModel(Z3_solver_get_model(c, I->inc), vars, out);
    Z3_solver_pop(c, I->inc, 1);
    if (r == R_UNKNOWN) {  // fresh, non-incremental bit-blasting solver
      Z3_solver_dec_ref(c, I->inc); I->inc = nullptr; I->incStack.clear();
      Z3_tactic t = Z3_mk_tactic(c, "qfbv"); Z3_tactic_inc_ref(c, t);
      Z3_solver s = Z3_mk_solver_from_tactic(c, t); Z3_solver_inc_ref(c, s); I->setParams(s, rlimit * 4u < rlimit ? ~0u : rlimit * 4u);
      for (Expr* e : sl) Z3_solver_assert(c, s, I->BV(e, 0));
      Z3_solver_assert(c, s, I->BV(extra, 0));
      r = conv(Z3_solver_check(c, s));
      if (r == R_SAT) I->readModel(Z3_solver_get_model(c, s), vars, out);
      Z3_solver_dec_ref(c, s); Z3_tactic_dec_ref(c, t);
    }
    if (r == R_SAT && !validate(out)) { ++st.modelRejects; fprintf(stderr, "osym: INTERNAL: z3 model does not satisfy the query\n"); return R_UNKNOWN; }
    return r;
  }
  // 0: a few concrete candidates (a witness needs no solver; UNSAT always does)
  {
    static u64 rng = 88172645463325252ull; auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    Assign m = out;
    for (int t = 0; t < 48; ++t) {
      for (uint32_t v : vars) {
        VarInfo& vi = EM.vars[v]; if (t > 8 && t < 32 && rnd() % 3) { m.set(v, out.get(v)); continue; }
        u64 x;
        if (vi.hasRange) { u64 span = (u64)vi.hi - (u64)vi.lo + 1; x = span ? (u64)vi.lo + rnd() % span : rnd(); if (t % 4 == 3) x = rnd() & 1 ? (u64)vi.lo : (u64)vi.hi; }
        else if (vi.isFP) { static const double sp[] = {0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 1e-3, 1e3, 1e-300, 1e300, -0.0}; int k = rnd() % 14; x = k < 11 ? dToBits(sp[k]) : k == 11 ? rnd() : dToBits(((double)(i64)(rnd() % 2000001) - 1000000) / 1000.0); }
        else x = rnd() >> (rnd() % 64);
        m.set(v, x & (u64)maskw(vi.width));
      }
      if (validate(m)) { out = m; return R_SAT; }
    }
  }
  // 1: FP arithmetic uninterpreted
  ++st.ufQueries;
  {
    Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_UFBV")); Z3_solver_inc_ref(c, s); I->setParams(s, rlimit);
    for (Expr* e : sl) Z3_solver_assert(c, s, I->BV(e, 0));
    Z3_solver_assert(c, s, I->BV(extra, 0));
    r = conv(Z3_solver_check(c, s));
    if (r == R_SAT) { I->readModel(Z3_solver_get_model(c, s), vars, out); if (!validate(out)) { ++st.modelRejects; r = R_UNKNOWN; } }
    Z3_solver_dec_ref(c, s);
    if (r != R_UNKNOWN) return r;
  }
  // 2: exact IEEE semantics
  ++st.fpaQueries;
  {
    Z3_tactic t = Z3_mk_tactic(c, "qffp"); Z3_tactic_inc_ref(c, t);
    Z3_solver s = Z3_mk_solver_from_tactic(c, t); Z3_solver_inc_ref(c, s); I->setParams(s, fpaRlimit);
    for (Expr* e : sl) Z3_solver_assert(c, s, I->BV(e, 1));
    Z3_solver_assert(c, s, I->BV(extra, 1));
    r = conv(Z3_solver_check(c, s));
    if (r == R_SAT) { I->readModel(Z3_solver_get_model(c, s), vars, out); if (!validate(out)) { ++st.modelRejects; r = R_UNKNOWN; } }
    Z3_solver_dec_ref(c, s); Z3_tactic_dec_ref(c, t);
  }
  return r;
}

Res Solver::check(const std::vector<Expr*>& pc, Expr* extra, Assign& model) {
  if (extra->op == O_CONST) return extra->c ? R_SAT : R_UNSAT;
  for (Expr* e : pc) if (e == extra) return R_SAT;
  // slice: constraints connected to `extra` through shared variables
  static std::vector<uint32_t> mark; static uint32_t ep = 0;
  if (mark.size() < EM.vars.size()) mark.resize(EM.vars.size() * 2 + 64, 0);
  ++ep;
  std::vector<uint32_t> mv;
  for (auto v : EM.varsOf(extra)) { mark[v] = ep; mv.push_back(v); }
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) if (!in[i]) {
      const auto& vs = EM.varsOf(pc[i]); bool hit = false;
      for (auto v : vs) if (mark[v] == ep) { hit = true; break; }
      if (hit) { in[i] = 1; for (auto v : vs) if (mark[v] != ep) { mark[v] = ep; mv.push_back(v); ch = true; } }
    }
  }
  std::vector<Expr*> sl;
  std::sort(mv.begin(), mv.end());
  for (auto v : mv) if (EM.vars[v].axiom) sl.push_back(EM.vars[v].axiom);
  for (size_t i = 0; i < pc.size(); ++i) if (in[i]) sl.push_back(pc[i]);
  std::vector<uint32_t> key; key.reserve(sl.size() + 1);
  for (Expr* e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.push_back(extra->id);
  ++st.queries;
  auto it = I->cache.find(key);
  if (it != I->cache.end()) {
    ++st.cacheHits;
    if (it->second.r == R_SAT) for (auto& p : it->second.m) model.set(p.first, p.second);
    return it->second.r;
  }
  double t0 = nowS();
  Assign out = model;
  Res r = solveSlice(sl, extra, out);
  double dt = nowS() - t0; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
  if (solverVerbose && dt > 0.5) fprintf(stderr, "osym: slow query %.2fs -> %d (slice %zu) %s\n", dt, (int)r, sl.size(), toStr(extra, 4).c_str());
  CacheEnt ce; ce.r = r;
  if (r == R_SAT) {
    ++st.sat;
    std::unordered_set<uint32_t> s; for (Expr* e : sl) for (auto v : EM.varsOf(e)) s.insert(v); for (auto v : EM.varsOf(extra)) s.insert(v);
    for (auto v : s) ce.m.push_back({v, out.get(v)});
    model = out;
  } else if (r == R_UNSAT) ++st.unsat; else ++st.unknown;
  I->cache[key] = ce;
  return r;
}
