// Functions the engine models itself: harness API, allocation, exceptions, libm, intrinsics.
#define BI(n) static int n(State& s, Inst& in, std::vector<Val>& a, Val* ret)
static int unwindTo(State& s);
static Val loadVal(State& s, u64 a, int bytes);
static void finishVoid(State& s);
static bool finishCall(State& s, StopCond* stop);

static Expr* boolArg(Val v) { return EM.ne(toE(v, 32), EM.cst(0, 32)); }
static int needStr(State& s, Val p, std::string& o) { return readCStr(s, p, o); }

BI(b_i32) { std::string n; if (int e = needStr(s, a[0], n)) return e; i64 lo = (i64)concretize(s, a[1], 64), hi = (i64)concretize(s, a[2], 64); bool full = lo <= INT32_MIN && hi >= INT32_MAX; if (lo == hi) { ret[0] = VC((u32)lo); } else ret[0] = mkV(mkVar(s, n, 32, false, !full, lo, hi, 0)); return B_OK; }
BI(b_i64) { std::string n; if (int e = needStr(s, a[0], n)) return e; i64 lo = (i64)concretize(s, a[1], 64), hi = (i64)concretize(s, a[2], 64); bool full = lo == INT64_MIN && hi == INT64_MAX; if (lo == hi) ret[0] = VC((u64)lo); else ret[0] = mkV(mkVar(s, n, 64, false, !full, lo, hi, 0)); return B_OK; }
BI(b_u8) { std::string n; if (int e = needStr(s, a[0], n)) return e; ret[0] = mkV(EM.zext(mkVar(s, n, 8, false, false, 0, 0, 0), in.w ? in.w : 8)); return B_OK; }
BI(b_f64) { std::string n; if (int e = needStr(s, a[0], n)) return e; ret[0] = mkV(mkVar(s, n, 64, true, false, 0, 0, 0)); return B_OK; }
BI(b_choose) { std::string n; if (int e = needStr(s, a[0], n)) return e; i64 lo = (i64)concretize(s, a[1], 64), hi = (i64)concretize(s, a[2], 64); if (lo >= hi) { ret[0] = VC((u64)lo); return B_OK; }
  // retry-safe: the variable for this occurrence is created once per attempt
  int o = s.occ[n]; Expr* v = mkVar(s, n, 64, false, true, lo, hi, 0);
  // forked siblings re-execute this call, so undo the occurrence bookkeeping while forking
  u64 x = (u64)EM.eval(v, s.model); Expr* c = EM.eq(v, EM.cst(x, 64)); bool own; Assign om; int r = decide(s, c, own, om);
  if (r == 2) { s.occ[n] = o; s.inputs.pop_back(); forkOther(s, EM.lnot(c), om); s.occ[n] = o + 1; s.inputs.push_back(v->aux); addPC(s, c); SH->symBranches++; }
  else if (r == 3) incomplete(&s, "solver gave no answer on a choice");
  ret[0] = VC(x); return B_OK; }
BI(b_assume) {
  Expr* c = boolArg(a[0]); if (c->op == O_CONST) { if (c->c) return B_OK; SH->assumeKilled++; if (mergeDepth) throw MergeAbort{"assume"}; return B_END; }
  if (mergeDepth) throw MergeAbort{"assume"};
  if (EM.eval(c, s.model)) { addPC(s, c); return B_OK; }
  Assign m = s.model; Res r = SV.check(s.pc, c, m);
  if (r == R_UNSAT) { SH->assumeKilled++; return B_END; }
  if (r == R_UNKNOWN) { incomplete(&s, "solver gave no answer on an assumption"); return B_END; }
  s.model = m; addPC(s, c); return B_OK;
}
BI(b_assert) {
  Expr* c = boolArg(a[0]); 
  if (c->op == O_CONST && c->c) { if (!mergeDepth) SH->assertsChecked++; return B_OK; }
  std::string msg; if (int e = needStr(s, a[1], msg)) return e;
  if (mergeDepth) throw MergeAbort{"assert"};
  SH->assertsChecked++;
  if (c->op == O_CONST) { violation(s, "ASSERT", msg, s.model); return B_END; }
  SH->assertsSym++;
  if (!EM.eval(c, s.model)) {
    violation(s, "ASSERT", msg, s.model);
    Assign m = s.model; Res r = SV.check(s.pc, c, m); if (r != R_SAT) return B_END; s.model = m; addPC(s, c); return B_OK;
  }
  for (Expr* e : s.pc) if (e == c) return B_OK;
  // an assertion that is a conjunction is discharged conjunct by conjunct
  std::vector<Expr*> cj, stk{c};
  while (!stk.empty()) { Expr* e = stk.back(); stk.pop_back(); if (e->op == O_AND && e->w == 1) { stk.push_back(e->k[0]); stk.push_back(e->k[1]); } else cj.push_back(e); }
  for (Expr* e : cj) {
    bool own; Assign om; int r = decide(s, e, own, om);
    if (r == 2) { violation(s, "ASSERT", msg, om); }
    else if (r == 3) incomplete(&s, "solver gave no answer on assertion: " + msg);
    addPC(s, e);
  }
  return B_OK;
}
BI(b_reach) { std::string n; if (int e = needStr(s, a[0], n)) return e; if (mergeDepth) return B_OK; int i = 0, m = SH->nreach; for (; i < m; ++i) if (n == SH->reach[i]) break; if (i == m) { i = SH->nreach++; strncpy(SH->reach[i], n.c_str(), 63); } SH->reachN[i]++; return B_OK; }
BI(b_observe) { std::string n; if (int e = needStr(s, a[0], n)) return e; s.obs.push_back({n, {nullptr, a[1]}}); return B_OK; }
BI(b_note) { std::string n; if (int e = needStr(s, a[0], n)) return e; s.notes.push_back({n, a[1]}); return B_OK; }
BI(b_conc) { u64 v = concretize(s, a[0], 64); ret[0] = VC(v); return B_OK; }
BI(b_issym) { ret[0] = VC(a[0].e != nullptr); return B_OK; }
BI(b_param) { std::string n; if (int e = needStr(s, a[0], n)) return e; auto it = params.find(n); ret[0] = it == params.end() ? a[1] : VC((u64)atoll(it->second.c_str())); return B_OK; }
BI(b_expectAbort) { s.expectAbort = (int)concretize(s, a[0], 32); return B_OK; }
BI(b_heapLive) { ret[0] = VC(s.heapLive); return B_OK; }
BI(b_print) { std::string n; if (int e = needStr(s, a[0], n)) return e; fprintf(stderr, "[%s] %s\n", n.c_str(), a[1].e ? toStr(a[1].e, 8).c_str() : std::to_string((i64)a[1].c).c_str()); return B_OK; }
BI(b_where) { fprintf(stderr, "where: %s\n", where(s).c_str()); return B_OK; }
BI(b_abort) {
  if (mergeDepth) throw MergeAbort{"abort"};
  if (s.expectAbort) { SH->abortsExpected++; SH->paths++; return B_END; }
  violation(s, "ABORT", "the program aborts", s.model); return B_END;
}
BI(b_fail) {  // Omega_h::fail(format, ...)
  if (mergeDepth) throw MergeAbort{"abort"};
  if (s.expectAbort) { SH->abortsExpected++; SH->paths++; return B_END; }
  std::string m; readCStr(s, a[0], m);
  if (m.find("%s") != std::string::npos && a.size() > 1) { std::string x; readCStr(s, a[1], x); m = x; }
  while (!m.empty() && m.back() == '\n') m.pop_back();
  violation(s, "ABORT", "the program aborts: " + m, s.model); return B_END;
}
BI(b_exit) { if (mergeDepth) throw MergeAbort{"exit"}; violation(s, "ABORT", "the program calls exit", s.model); return B_END; }
// ---- coroutines
BI(b_coCreate) {
  u64 fn = concretize(s, a[0], 64); FuncInfo* fi = funcAt(fn); if (!fi) { violation(s, "MEMORY", "bad coroutine", s.model); return B_END; }
  if (mergeDepth) throw MergeAbort{"co"};
  int me = s.cur; s.th.emplace_back(); s.cur = (int)s.th.size() - 1; pushFrame(s, fi); s.top().r[0] = a[1]; int id = s.cur; s.cur = me; ret[0] = VC((u32)id); return B_OK;
}
BI(b_coSwitch) {
  if (mergeDepth) throw MergeAbort{"co"};
  u32 id = (u32)concretize(s, a[0], 32);
  if (id >= s.th.size() || s.th[id].done) { incomplete(&s, "switch to a finished coroutine"); return B_END; }
  if ((int)id == s.cur) return B_OK;
  // complete the call in the current coroutine first, and the target continues where it is
  finishCall(s, nullptr); s.cur = id; 
  return B_CTRL;
}
BI(b_coSelf) { ret[0] = VC((u32)s.cur); return B_OK; }
BI(b_coDone) { u32 id = (u32)concretize(s, a[0], 32); ret[0] = VC(id < s.th.size() && s.th[id].done); return B_OK; }
// ---- allocation
static u64 newHeap(State& s, u64 n, bool zero, int tag) { u32 id = s.mem.alloc(n, K_HEAP, zero); s.mem.getW(id)->tag = tag; ++s.heapLive; return addrOf(id); }
static int doAlloc(State& s, Val sz, bool zero, int tag, Val* ret) {
  u64 n = concretize(s, sz, 64);
  if (n > (512u << 20)) { violation(s, "MEMORY", "allocation of an absurd size " + std::to_string((i64)n), s.model); if (mergeDepth) throw MergeAbort{"alloc"}; return B_END; }
  ret[0] = VC(newHeap(s, n, zero, tag)); return B_OK;
}
BI(b_malloc) { return doAlloc(s, a[0], false, 1, ret); }
BI(b_new) { return doAlloc(s, a[0], false, 2, ret); }
BI(b_newArr) { return doAlloc(s, a[0], false, 3, ret); }
BI(b_calloc) { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); return doAlloc(s, VC(n * m), true, 1, ret); }
BI(b_alignedAlloc) { return doAlloc(s, a[1], false, 1, ret); }
static int doFree(State& s, Val p, int tag) {
  u64 x = concretize(s, p, 64); if (!x) return B_OK;
  u32 id = x >> 32; Obj* o = id < s.mem.next ? s.mem.get(id) : nullptr;
  if (!o || !o->live || o->kind != K_HEAP || x != addrOf(id)) { violation(s, "MEMORY", !o || !o->live ? "double free or free of a wild pointer" : "free of a pointer that was not allocated", s.model); if (mergeDepth) throw MergeAbort{"free"}; return B_END; }
  if (o->tag != tag) { violation(s, "MEMORY", "mismatched allocation and deallocation functions", s.model); if (mergeDepth) throw MergeAbort{"free"}; return B_END; }
  s.mem.freeObj(id); --s.heapLive; return B_OK;
}
BI(b_free) { return doFree(s, a[0], 1); }
BI(b_delete) { return doFree(s, a[0], 2); }
BI(b_deleteArr) { return doFree(s, a[0], 3); }
BI(b_realloc) {
  u64 x = concretize(s, a[0], 64), n = concretize(s, a[1], 64); if (!x) return doAlloc(s, VC(n), false, 1, ret);
  u32 id = x >> 32; Obj* o = id < s.mem.next ? s.mem.get(id) : nullptr; if (!o || !o->live || o->kind != K_HEAP) { violation(s, "MEMORY", "realloc of a wild pointer", s.model); return B_END; }
  u64 old = o->size; u64 p = newHeap(s, n, false, 1); if (int e = copyMem(s, p, x, std::min(old, n))) return e; if (int e = doFree(s, VC(x), 1)) return e; ret[0] = VC(p); return B_OK;
}
// ---- memory intrinsics
BI(b_memcpy) {
  u64 n = concretize(s, a[2], in.call->argW[2]); 
  if (n && (a[0].e || a[1].e)) { u64 d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); a[0] = VC(d); a[1] = VC(q); }
  if (n) if (int e = copyMem(s, a[0].c, a[1].c, n)) return e;
  ret[0] = a[0]; return B_OK;
}
BI(b_memset) {
  u64 n = concretize(s, a[2], in.call->argW[2]); ret[0] = a[0]; if (!n) return B_OK; u64 d = concretize(s, a[0], 64); ret[0] = VC(d);
  Acc r; if (int e = resolve(s, VC(d), n, true, r, "memset")) return e;
  int vw = in.call->argW[1];
  if (!a[1].e) { MemData* m = s.mem.dataW(r.id); memset(m->c + r.off, (int)(a[1].c & 255), n); if (m->s) memset((void*)(m->s + r.off), 0, n * sizeof(SymB)); if (m->un) memset(m->un + r.off, 0, n); }
  else { Val b = mkV(EM.extract(toE(a[1], vw), 0, 8)); for (u64 i = 0; i < n; ++i) storeC(s, r.id, r.off + i, 1, 8, b); }
  return B_OK;
}
// ---- integer intrinsics
static int wOf(Inst& in) { return in.call->argW[0]; }
template <int K> BI(b_minmax) { int w = wOf(in); Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr* c = K == 0 ? EM.cmp(O_SLT, x, y) : K == 1 ? EM.cmp(O_SLT, y, x) : K == 2 ? EM.cmp(O_ULT, x, y) : EM.cmp(O_ULT, y, x); ret[0] = mkV(EM.ite(c, x, y)); return B_OK; }
BI(b_abs) { int w = wOf(in); Expr* x = toE(a[0], w); ret[0] = mkV(EM.ite(EM.cmp(O_SLT, x, EM.cst(0, w)), EM.bin(O_SUB, EM.cst(0, w), x), x)); return B_OK; }
template <int K> BI(b_ovf) {  // 0 sadd 1 uadd 2 ssub 3 usub 4 smul 5 umul
  int w = wOf(in); bool sg = K % 2 == 0; int W = (K >= 4) ? 2 * w : w + 1; if (W > 128) { incomplete(&s, "wide overflow intrinsic"); return B_END; }
  Expr *x = toE(a[0], w), *y = toE(a[1], w); Op o = K < 2 ? O_ADD : K < 4 ? O_SUB : O_MUL;
  Expr *X = sg ? EM.sext(x, W) : EM.zext(x, W), *Y = sg ? EM.sext(y, W) : EM.zext(y, W); Expr* r = EM.bin(o, x, y); Expr* R2 = EM.bin(o, X, Y);
  ret[0] = mkV(r); ret[1] = mkV(EM.ne(R2, sg ? EM.sext(r, W) : EM.zext(r, W))); return B_OK;
}
template <int K> BI(b_usat) { int w = wOf(in); Expr *x = toE(a[0], w), *y = toE(a[1], w); if (K == 0) { Expr* r = EM.bin(O_ADD, x, y); ret[0] = mkV(EM.ite(EM.cmp(O_ULT, r, x), EM.cst(maskw(w), w), r)); } else ret[0] = mkV(EM.ite(EM.cmp(O_ULT, x, y), EM.cst(0, w), EM.bin(O_SUB, x, y))); return B_OK; }
BI(b_ctpop) { int w = wOf(in); Expr* x = toE(a[0], w); Expr* r = EM.cst(0, w); for (int i = 0; i < w; ++i) r = EM.bin(O_ADD, r, EM.zext(EM.extract(x, i, 1), w)); ret[0] = mkV(r); return B_OK; }
BI(b_ctlz) { int w = wOf(in); Expr* x = toE(a[0], w); Expr* r = EM.cst(w, w); for (int i = 0; i < w; ++i) r = EM.ite(EM.extract(x, i, 1), EM.cst(w - 1 - i, w), r); ret[0] = mkV(r); return B_OK; }
BI(b_cttz) { int w = wOf(in); Expr* x = toE(a[0], w); Expr* r = EM.cst(w, w); for (int i = w - 1; i >= 0; --i) r = EM.ite(EM.extract(x, i, 1), EM.cst(i, w), r); ret[0] = mkV(r); return B_OK; }
BI(b_bswap) { int w = wOf(in); Expr* x = toE(a[0], w); Expr* r = nullptr; for (int i = 0; i < w / 8; ++i) { Expr* b = EM.extract(x, i * 8, 8); r = r ? EM.concat(r, b) : b; } ret[0] = mkV(r); return B_OK; }
template <int K> BI(b_fsh) { int w = wOf(in); if (w > 64) { incomplete(&s, "wide funnel shift"); return B_END; } Expr *x = toE(a[0], w), *y = toE(a[1], w), *z = EM.bin(O_UREM, toE(a[2], w), EM.cst(w, w)); Expr* cat = EM.concat(x, y); Expr* zz = EM.zext(z, 2 * w);
  if (K == 0) ret[0] = mkV(EM.extract(EM.bin(O_SHL, cat, zz), w, w)); else ret[0] = mkV(EM.extract(EM.bin(O_LSHR, cat, zz), 0, w)); return B_OK; }
BI(b_zero) { ret[0] = VC(0); return B_OK; }
BI(b_one) { ret[0] = VC(1); return B_OK; }
BI(b_nop) { return B_OK; }
BI(b_objsize) { ret[0] = VC(~0ull); return B_OK; }
BI(b_mone) { ret[0] = VC(~0ull); return B_OK; }
// ---- floating point
static const int FW(Inst& in) { return in.call->argW[0]; }
template <Op O> BI(b_f1) { ret[0] = mkV(EM.f1(O, toE(a[0], FW(in)), FW(in))); return B_OK; }
BI(b_fma) { Expr* r; if (!a[0].e && !a[1].e && !a[2].e) r = EM.cst(evalOp(O_FMA, 64, 64, a[0].c, a[1].c, a[2].c, 0, 0, 64), 64); else r = EM.mk(O_FMA, 64, toE(a[0], 64), toE(a[1], 64), toE(a[2], 64)); ret[0] = mkV(r); return B_OK; }
BI(b_fmuladd) { int w = FW(in); ret[0] = mkV(EM.fbin(O_FADD, EM.fbin(O_FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return B_OK; }
template <int K> BI(b_fminmax) { int w = FW(in); Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr* c = K == 0 ? EM.fcmp(O_FOLT, y, x) : EM.fcmp(O_FOLT, x, y); // choose y when y is better, or x is NaN
  ret[0] = mkV(EM.ite(EM.lor(c, EM.fcmp(O_FUNO, x, x)), y, x)); return B_OK; }
BI(b_copysign) { Expr *x = toE(a[0], 64), *y = toE(a[1], 64); ret[0] = mkV(EM.bin(O_OR, EM.bin(O_AND, x, EM.cst(maskw(63), 64)), EM.bin(O_AND, y, EM.cst((u128)1 << 63, 64)))); return B_OK; }
BI(b_frem) { ret[0] = mkV(EM.fbin(O_FREM, toE(a[0], 64), toE(a[1], 64))); return B_OK; }
static int ufCall(State& s, Inst& in, std::vector<Val>& a, Val* ret) {
  FuncInfo* fi = in.call->callee; std::string n = fi->name; if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
  ret[0] = mkV(EM.uf(n, toE(a[0], 64), a.size() > 1 ? toE(a[1], 64) : nullptr)); return B_OK;
}
BI(b_powi) { u64 n = concretize(s, a[1], 32); i64 k = (i64)(int)n; Expr* r = EM.cst(0x3FF0000000000000ull, 64); for (i64 i = 0; i < (k < 0 ? -k : k); ++i) r = EM.fbin(O_FMUL, r, toE(a[0], 64)); if (k < 0) r = EM.fbin(O_FDIV, EM.cst(0x3FF0000000000000ull, 64), r); ret[0] = mkV(r); return B_OK; }
BI(b_isfpclass) { u64 m = a[1].c; int w = FW(in); Expr* x = toE(a[0], w); 
  Expr* r = EM.F; int mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8; Expr* ex = EM.extract(x, mb, eb); Expr* ma = EM.extract(x, 0, mb); Expr* sg = EM.extract(x, w - 1, 1);
  Expr* e1 = EM.eq(ex, EM.cst(maskw(eb), eb)); Expr* e0 = EM.eq(ex, EM.cst(0, eb)); Expr* m0 = EM.eq(ma, EM.cst(0, mb));
  Expr* q = EM.extract(ma, mb - 1, 1);
  auto add = [&](u64 bit, Expr* c) { if (m & bit) r = EM.lor(r, c); };
  add(1, EM.land(e1, EM.land(EM.lnot(m0), EM.lnot(q)))); add(2, EM.land(e1, q)); add(4, EM.land(EM.land(e1, m0), sg)); add(512, EM.land(EM.land(e1, m0), EM.lnot(sg)));
  Expr* nrm = EM.land(EM.lnot(e1), EM.lnot(e0)); add(8, EM.land(nrm, sg)); add(256, EM.land(nrm, EM.lnot(sg)));
  Expr* sub = EM.land(e0, EM.lnot(m0)); add(16, EM.land(sub, sg)); add(128, EM.land(sub, EM.lnot(sg))); Expr* z = EM.land(e0, m0); add(32, EM.land(z, sg)); add(64, EM.land(z, EM.lnot(sg)));
  ret[0] = mkV(r); return B_OK; }
// ---- varargs
BI(b_vastart) {
  u64 va = concretize(s, a[0], 64); Frame& f = s.top(); auto v = f.varargs; u32 id = s.mem.alloc(std::max<size_t>(8, 8 * v.size()), K_STACK, true); s.top().allocas.push_back(id);
  for (size_t i = 0; i < v.size(); ++i) storeC(s, id, 8 * i, 8, 64, v[i]);  // (narrow values are zero extended)
  Acc r; if (int e = resolve(s, VC(va), 24, true, r, "va_start")) return e;
  storeA(s, r, 0, 4, 32, VC(48)); storeA(s, r, 4, 4, 32, VC(304)); storeA(s, r, 8, 8, 64, VC(addrOf(id))); storeA(s, r, 16, 8, 64, VC(0)); return B_OK;
}
BI(b_vacopy) { u64 d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); return copyMem(s, d, q, 24); }
// ---- exceptions
BI(b_allocExc) { u64 n = concretize(s, a[0], 64); u32 id = s.mem.alloc(n + 32, K_HEAP, true); ret[0] = VC(addrOf(id) + 32); return B_OK; }
BI(b_freeExc) { return B_OK; }
BI(b_throw) {
  if (mergeDepth) throw MergeAbort{"throw"};
  u64 p = concretize(s, a[0], 64); u64 t = concretize(s, a[1], 64); Acc r; if (int e = resolve(s, VC(p - 32), 32, true, r, "throw")) return e;
  storeA(s, r, 0, 8, 64, VC(t)); storeA(s, r, 8, 8, 64, VC(p)); s.curExc = p - 32;
  // look for a handler
  State* probe = &s; (void)probe;
  int e = unwindTo(s); if (e == B_END) { violation(s, "EXCEPTION", "uncaught exception", s.model); return B_END; }
  return B_CTRL;
}
BI(b_beginCatch) { u64 p = concretize(s, a[0], 64); u64 h = p - 32; s.caught.push_back(h); u64 adj = loadVal(s, h + 8, 8).c; ret[0] = VC(adj ? adj : p); return B_OK; }
BI(b_endCatch) { if (!s.caught.empty()) s.caught.pop_back(); return B_OK; }
BI(b_rethrow) { if (mergeDepth) throw MergeAbort{"throw"}; if (s.caught.empty()) { violation(s, "EXCEPTION", "rethrow without exception", s.model); return B_END; } s.curExc = s.caught.back(); s.caught.pop_back(); if (unwindTo(s) == B_END) { violation(s, "EXCEPTION", "uncaught exception", s.model); return B_END; } return B_CTRL; }
BI(b_typeidFor) { ret[0] = VC(((u64)a[0].c >> 32) & 0xffffffff); return B_OK; }
// __dynamic_cast(src, srcType, dstType, hint): walk the dynamic type
static bool dynBase(State& s, u64 obj, u64 ti, u64 want, u64& out) {
  if (ti == want) { out = obj; return true; }
  u64 vt = loadVal(s, ti, 8).c; std::string vn; for (auto& g : gaddr) if ((g.second >> 32) == (vt >> 32)) { vn = g.first->getName().str(); break; }
  if (vn.find("si_class_type_info") != std::string::npos) return dynBase(s, obj, loadVal(s, ti + 16, 8).c, want, out);
  if (vn.find("vmi_class_type_info") != std::string::npos) { u32 n = (u32)loadVal(s, ti + 20, 4).c; for (u32 i = 0; i < n; ++i) { u64 b = loadVal(s, ti + 24 + 16 * i, 8).c; i64 fl = (i64)loadVal(s, ti + 32 + 16 * i, 8).c; if (fl & 1) continue; if (dynBase(s, obj + (fl >> 8), b, want, out)) return true; } }
  return false;
}
BI(b_dyncast) {
  u64 p = concretize(s, a[0], 64); if (!p) { ret[0] = VC(0); return B_OK; }
  u64 vt = concretize(s, loadVal(s, p, 8), 64); i64 top = (i64)loadVal(s, vt - 16, 8).c; u64 ti = loadVal(s, vt - 8, 8).c; u64 out = 0;
  ret[0] = VC(dynBase(s, p + top, ti, a[2].c, out) ? out : 0); return B_OK;
}
BI(b_guardAcq) { u64 p = concretize(s, a[0], 64); Acc r; if (int e = resolve(s, VC(p), 8, false, r, "guard")) return e; ret[0] = VC(loadA(s, r, 0, 1, 8).c == 0); return B_OK; }
BI(b_guardRel) { u64 p = concretize(s, a[0], 64); Acc r; if (int e = resolve(s, VC(p), 8, true, r, "guard")) return e; storeA(s, r, 0, 1, 8, VC(1)); return B_OK; }
// text form of floating point numbers (the value / the characters are made concrete)
BI(b_fmtDouble) {
  u64 buf = concretize(s, a[0], 64), size = concretize(s, a[1], 32); int prec = (int)concretize(s, a[2], 32), mode = (int)concretize(s, a[3], 32); u64 b = concretize(s, a[4], 64);
  double v; memcpy(&v, &b, 8); char t[512]; const char* fm = mode == 4 ? "%.*f" : mode == 256 ? "%.*e" : "%.*g"; if (prec < 0) prec = 6; int n = snprintf(t, sizeof t, fm, prec, v); if (n < 0 || (u64)n >= size || n >= (int)sizeof t) { incomplete(&s, "number too long to format"); return B_END; }
  Acc r; if (int e = resolve(s, VC(buf), n, true, r, "format")) return e;
  for (int i = 0; i < n; ++i) storeC(s, r.id, r.off + i, 1, 8, VC((unsigned char)t[i]));
  ret[0] = VC((u32)n); return B_OK;
}
BI(b_parseDouble) {
  std::string t; if (int e = needStr(s, a[0], t)) return e; char* end; double v = strtod(t.c_str(), &end); u64 b; memcpy(&b, &v, 8);
  if (a.size() > 1 && a[1].c) { Acc r; if (int e = resolve(s, a[1], 4, true, r, "parse")) return e; storeC(s, r.id, r.off, 4, 32, VC((u32)(end - t.c_str()))); }
  ret[0] = VC(b); return B_OK;
}
BI(b_strtod) {
  std::string t; if (int e = needStr(s, a[0], t)) return e; char* end; double v = strtod(t.c_str(), &end); u64 b; memcpy(&b, &v, 8);
  if (a[1].c || a[1].e) { Acc r; if (int e = resolve(s, a[1], 8, true, r, "strtod")) return e; storeC(s, r.id, r.off, 8, 64, VC(concretize(s, a[0], 64) + (u64)(end - t.c_str()))); }
  ret[0] = VC(b); return B_OK;
}
BI(b_clock) { static int n = 0; (void)n; ret[0] = mkV(mkVar(s, "clock", 64, false, true, 0, (i64)1 << 40, 2)); return B_OK; }
BI(b_unmodelled) { if (mergeDepth) throw MergeAbort{"external"}; incomplete(&s, "call of an unmodelled external function " + in.call->callee->name); return B_END; }

static std::map<std::string, Builtin>& builtinTab() {
  static std::map<std::string, Builtin> t;
  if (t.empty()) {
    t["osym_i32"] = b_i32; t["osym_i64"] = b_i64; t["osym_u8"] = b_u8; t["osym_f64"] = b_f64; t["osym_choose"] = b_choose; t["osym_assume"] = b_assume; t["osym_assert"] = b_assert;
    t["osym_reach"] = b_reach; t["osym_observe"] = b_observe; t["osym_note"] = b_note; t["osym_concretize"] = b_conc; t["osym_is_symbolic"] = b_issym; t["osym_param"] = b_param; t["osym_expect_abort"] = b_expectAbort; t["osym_heap_live"] = b_heapLive; t["osym_print"] = b_print; t["osym_where"] = b_where;
    t["osym_fmt_double"] = b_fmtDouble; t["osym_parse_double"] = b_parseDouble; t["strtod"] = b_strtod;
    t["osym_co_create"] = b_coCreate; t["osym_co_switch"] = b_coSwitch; t["osym_co_self"] = b_coSelf; t["osym_co_done"] = b_coDone;
    t["abort"] = b_abort; t["_ZSt9terminatev"] = b_abort; t["__cxa_pure_virtual"] = b_abort; t["__assert_fail"] = b_abort; t["exit"] = b_exit; t["_exit"] = b_exit; t["llvm.trap"] = b_abort; t["llvm.ubsantrap"] = b_abort; t["__clang_call_terminate"] = b_abort; t["__cxa_call_unexpected"] = b_abort; t["__cxa_bad_cast"] = b_abort;
    t["_ZN7Omega_h4failEPKcz"] = b_fail;
    t["malloc"] = b_malloc; t["calloc"] = b_calloc; t["realloc"] = b_realloc; t["free"] = b_free; t["aligned_alloc"] = b_alignedAlloc;
    for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) t[n] = b_new;
    for (auto n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) t[n] = b_newArr;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) t[n] = b_delete;
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) t[n] = b_deleteArr;
    t["memcpy"] = b_memcpy; t["memmove"] = b_memcpy; t["memset"] = b_memset;
    t["__cxa_allocate_exception"] = b_allocExc; t["__cxa_free_exception"] = b_freeExc; t["__cxa_throw"] = b_throw; t["__cxa_begin_catch"] = b_beginCatch; t["__cxa_end_catch"] = b_endCatch; t["__cxa_rethrow"] = b_rethrow; t["__dynamic_cast"] = b_dyncast;
    t["__cxa_guard_acquire"] = b_guardAcq; t["__cxa_guard_release"] = b_guardRel; t["__cxa_guard_abort"] = b_nop; t["__cxa_atexit"] = b_zero; t["atexit"] = b_zero;
    t["floor"] = b_f1<O_FFLOOR>; t["ceil"] = b_f1<O_FCEIL>; t["trunc"] = b_f1<O_FTRUNC>; t["rint"] = b_f1<O_FRINT>; t["nearbyint"] = b_f1<O_FRINT>; t["round"] = b_f1<O_FROUND>; t["sqrt"] = b_f1<O_FSQRT>; t["fabs"] = b_f1<O_FABS>; t["fmod"] = b_frem; t["fmin"] = b_fminmax<0>; t["fmax"] = b_fminmax<1>; t["copysign"] = b_copysign; t["fma"] = b_fma;
    for (auto n : {"exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "exp2", "log2", "log10", "cbrt", "sinh", "cosh", "tanh", "pow", "atan2", "hypot"}) t[n] = ufCall;
  }
  return t;
}
static Builtin findBuiltin(FuncInfo* fi) {
  const std::string& n = fi->name; auto& t = builtinTab();
  auto it = t.find(n);
  if (it != t.end()) return it->second;
  if (n.rfind("llvm.", 0) == 0) {
    auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return b_memcpy; if (pre("llvm.memset")) return b_memset;
    if (pre("llvm.smin")) return b_minmax<0>; if (pre("llvm.smax")) return b_minmax<1>; if (pre("llvm.umin")) return b_minmax<2>; if (pre("llvm.umax")) return b_minmax<3>; if (pre("llvm.abs")) return b_abs;
    if (pre("llvm.sadd.with")) return b_ovf<0>; if (pre("llvm.uadd.with")) return b_ovf<1>; if (pre("llvm.ssub.with")) return b_ovf<2>; if (pre("llvm.usub.with")) return b_ovf<3>; if (pre("llvm.smul.with")) return b_ovf<4>; if (pre("llvm.umul.with")) return b_ovf<5>;
    if (pre("llvm.uadd.sat")) return b_usat<0>; if (pre("llvm.usub.sat")) return b_usat<1>; if (pre("llvm.ctpop")) return b_ctpop; if (pre("llvm.ctlz")) return b_ctlz; if (pre("llvm.cttz")) return b_cttz; if (pre("llvm.bswap")) return b_bswap; if (pre("llvm.fshl")) return b_fsh<0>; if (pre("llvm.fshr")) return b_fsh<1>;
    if (pre("llvm.fabs")) return b_f1<O_FABS>; if (pre("llvm.sqrt")) return b_f1<O_FSQRT>; if (pre("llvm.floor")) return b_f1<O_FFLOOR>; if (pre("llvm.ceil")) return b_f1<O_FCEIL>; if (pre("llvm.trunc")) return b_f1<O_FTRUNC>; if (pre("llvm.rint") || pre("llvm.nearbyint") || pre("llvm.roundeven")) return b_f1<O_FRINT>; if (pre("llvm.round")) return b_f1<O_FROUND>;
    if (pre("llvm.minnum") || pre("llvm.minimum")) return b_fminmax<0>; if (pre("llvm.maxnum") || pre("llvm.maximum")) return b_fminmax<1>; if (pre("llvm.copysign")) return b_copysign; if (pre("llvm.fmuladd")) return b_fmuladd; if (pre("llvm.fma")) return b_fma; if (pre("llvm.is.fpclass")) return b_isfpclass; if (pre("llvm.powi")) return b_powi;
    for (auto f : {"llvm.exp.", "llvm.log.", "llvm.sin.", "llvm.cos.", "llvm.pow.", "llvm.exp2.", "llvm.log2.", "llvm.log10."}) if (pre(f)) return ufCall;
    if (pre("llvm.objectsize")) return b_objsize; if (pre("llvm.is.constant")) return b_zero; if (pre("llvm.stacksave")) return b_zero; if (pre("llvm.stackrestore")) return b_nop; if (pre("llvm.va_start")) return b_vastart; if (pre("llvm.va_end")) return b_nop; if (pre("llvm.va_copy")) return b_vacopy; if (pre("llvm.eh.typeid.for")) return b_typeidFor; if (pre("llvm.invariant.start")) return b_zero; if (pre("llvm.type.test")) return b_one;
    return b_unmodelled;
  }
  return nullptr;
}
