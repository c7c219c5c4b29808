#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_migrate.hpp"
#include "Omega_h_dist.hpp"
#include <algorithm>
#include <set>
// ---- C16: moving elements between ranks and adding or dropping ghosts keeps the mesh and its data
namespace {
int const MR = 3, MS = 4; using Key = std::vector<GO>;
struct Ent { Key key, ord; I32 rank; LO idx; GO global; int owned; I32 t; Real x[3]; I8 c; };
struct Snap { std::vector<Ent> e[4]; GO n[4]; };
struct Shape { LO const* ev; int ne, deg, dim, nv; Omega_h_Family f; };
LO const TRI[] = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, TWO[] = {0, 1, 2, 2, 1, 3}, CHAIN[] = {0, 1, 1, 2, 2, 3, 3, 4}, TETS[] = {0, 1, 2, 3, 1, 2, 3, 4}, STRIP[] = {0, 1, 2, 2, 1, 3, 2, 3, 4, 4, 3, 5}, QUADS[] = {0, 1, 3, 2, 2, 3, 5, 4, 4, 5, 7, 6}, HEXES[] = {0, 1, 3, 2, 4, 5, 7, 6, 4, 5, 7, 6, 8, 9, 11, 10};
Shape const SH[] = {{CHAIN, 4, 2, 1, 5, OMEGA_H_SIMPLEX}, {TWO, 2, 3, 2, 4, OMEGA_H_SIMPLEX}, {TRI, 4, 3, 2, 5, OMEGA_H_SIMPLEX}, {STRIP, 4, 3, 2, 6, OMEGA_H_SIMPLEX}, {TETS, 2, 4, 3, 5, OMEGA_H_SIMPLEX}, {QUADS, 3, 4, 2, 8, OMEGA_H_HYPERCUBE}, {HEXES, 2, 8, 3, 12, OMEGA_H_HYPERCUBE}};
Shape S; int P, EL[8], NEW[MS][8], OP[MS], STEPS; Snap SN[MS + 1][MR]; I32 WR[8]; LO WI[8]; I32 TV[64]; Real XV[64][3]; std::vector<Key> KEYS[4];
}
static int key_of(int d, Key k) { std::sort(k.begin(), k.end()); auto it = std::lower_bound(KEYS[d].begin(), KEYS[d].end(), k); ASSERT(it != KEYS[d].end() && *it == k); return it - KEYS[d].begin(); }
static I32 tval(int d, int id) { return TV[(id * 5 + d * 11) % 64]; }
static I8 cval(int d, int id) { return (I8)((id * 3 + d) % 7); }
static void snap(Mesh& m, int step, int me) {
  auto& s = SN[step][me]; auto v0 = m.globals(0); auto co = m.coords();
  for (int d = 0; d <= S.dim; ++d) { s.e[d].clear(); LO n = m.nents(d); s.n[d] = m.nglobal_ents(d); auto o = m.ask_owners(d); auto ow = m.owned(d); auto g = m.globals(d); auto t = m.get_array<I32>(d, "t"); auto c = m.get_array<I8>(d, "class_dim"); auto ev = d ? m.ask_verts_of(d) : LOs(n, 0, 1); int k = d ? element_degree(S.f, d, VERT) : 1; ASSERT(ev.size() == n * k && m.ntags(d) == (d ? 3 : 4));
    for (LO i = 0; i < n; ++i) { Ent e; for (int j = 0; j < k; ++j) e.ord.push_back(v0[ev[i * k + j]]); e.key = e.ord; std::sort(e.key.begin(), e.key.end()); e.rank = o.ranks[i]; e.idx = o.idxs[i]; e.global = g[i]; e.owned = ow[i]; e.t = t[i]; e.c = c[i]; for (int j = 0; j < 3; ++j) e.x[j] = d == 0 && j < S.dim ? co[i * S.dim + j] : 0; s.e[d].push_back(e); } }
  meshck::adjacency(m, true);
}
static void ranks(int me) {
  Library lib; CommPtr c = lib.world(); std::vector<GO> vg; std::vector<LO> ev; for (int e = 0; e < S.ne; ++e) if (EL[e] == me) for (int k = 0; k < S.deg; ++k) { GO g = S.ev[e * S.deg + k]; if (std::find(vg.begin(), vg.end(), g) == vg.end()) vg.push_back(g); } std::sort(vg.begin(), vg.end());
  for (int e = 0; e < S.ne; ++e) if (EL[e] == me) for (int k = 0; k < S.deg; ++k) ev.push_back(std::find(vg.begin(), vg.end(), (GO)S.ev[e * S.deg + k]) - vg.begin());
  Write<GO> gw(vg.size()); for (size_t i = 0; i < vg.size(); ++i) gw[i] = vg[i]; Write<LO> ew(ev.size()); for (size_t i = 0; i < ev.size(); ++i) ew[i] = ev[i];
  Mesh m(&lib); build_from_elems2verts(&m, c, S.f, S.dim, LOs(ew), GOs(gw)); auto v0 = m.globals(0);
  for (int d = 0; d <= S.dim; ++d) { LO n = m.nents(d); auto evs = d ? m.ask_verts_of(d) : LOs(n, 0, 1); int k = d ? element_degree(S.f, d, VERT) : 1; Write<I32> t(n); Write<I8> cd(n); Write<Real> x(n * S.dim); for (LO i = 0; i < n; ++i) { Key q; for (int j = 0; j < k; ++j) q.push_back(v0[evs[i * k + j]]); int id = key_of(d, q); t[i] = tval(d, id); cd[i] = cval(d, id); for (int j = 0; j < S.dim; ++j) x[i * S.dim + j] = XV[id][j]; } m.add_tag<I32>(d, "t", 1, Read<I32>(t)); m.add_tag<I8>(d, "class_dim", 1, Read<I8>(cd)); if (d == 0) m.add_tag<Real>(0, "coordinates", S.dim, Reals(x)); }
  snap(m, 0, me);
  for (int s = 0; s < STEPS; ++s) { int op = OP[s];
    if (op == 0) m.set_parting(OMEGA_H_ELEM_BASED); else if (op == 1 || op == 2) m.set_parting(OMEGA_H_GHOSTED, op, false); else if (op == 3) m.set_parting(OMEGA_H_VERT_BASED);
    else { m.set_parting(OMEGA_H_ELEM_BASED); auto evs = m.ask_verts_of(S.dim); auto vv = m.globals(0); for (LO i = 0; i < m.nelems(); ++i) { Key q; for (int j = 0; j < S.deg; ++j) q.push_back(vv[evs[i * S.deg + j]]); int id = key_of(S.dim, q); WR[id] = me; WI[id] = i; } c->barrier();
      std::vector<std::pair<int, int>> want; for (int e = 0; e < S.ne; ++e) if (NEW[s][e] == me) want.push_back({WR[e], WI[e]}); Write<I32> r(want.size()); Write<LO> x(want.size()); for (size_t i = 0; i < want.size(); ++i) { r[i] = want[i].first; x[i] = want[i].second; } Dist d(c, Remotes(Read<I32>(r), LOs(x)), m.nelems()); migrate_mesh(&m, d, OMEGA_H_ELEM_BASED, false); }
    ASSERT(m.parting() == (op == 1 || op == 2 ? OMEGA_H_GHOSTED : op == 3 ? OMEGA_H_VERT_BASED : OMEGA_H_ELEM_BASED)); snap(m, s + 1, me); }
}
// cur: which rank each element belongs to at this point
static void judge(int step, int op, int const* cur) {
  std::set<int> want[MR]; auto verts = [&](int e) { return std::vector<LO>(S.ev + e * S.deg, S.ev + (e + 1) * S.deg); }; auto eid = [&](int e) { auto v = verts(e); return key_of(S.dim, Key(v.begin(), v.end())); }; std::vector<std::vector<LO>> ev(S.ne); for (int e = 0; e < S.ne; ++e) ev[eid(e)] = verts(e);
  for (int r = 0; r < P; ++r) { std::set<LO> vs; if (op == 3) { for (auto& e : SN[step][r].e[0]) if (e.owned) vs.insert(e.key[0]); for (int e = 0; e < S.ne; ++e) for (LO v : ev[e]) if (vs.count(v)) want[r].insert(e); }
    else { for (int e = 0; e < S.ne; ++e) if (cur[e] == r) want[r].insert(e); if (op == 1 || op == 2) for (int l = 0; l < op; ++l) { vs.clear(); for (int e : want[r]) for (LO v : ev[e]) vs.insert(v); for (int e = 0; e < S.ne; ++e) for (LO v : ev[e]) if (vs.count(v)) want[r].insert(e); } } }
  for (int d = 0; d <= S.dim; ++d) { int ng = KEYS[d].size();
    for (int r = 0; r < P; ++r) { auto& s = SN[step][r].e[d]; ASSERT(SN[step][r].n[d] == ng); std::set<int> have, must; for (auto& e : s) { ASSERT(have.insert(key_of(d, e.key)).second); } // entities on a rank are exactly those of its elements
      for (int k = 0; k < ng; ++k) for (int e : want[r]) { bool in; if (d == S.dim) in = k == e; else { in = true; for (GO g : KEYS[d][k]) in = in && std::find(ev[e].begin(), ev[e].end(), (LO)g) != ev[e].end(); } if (in) must.insert(k); } ASSERT(have == must); }
    for (int k = 0; k < ng; ++k) { Ent const* f = nullptr; for (int r = 0; r < P; ++r) for (auto& e : SN[0][r].e[d]) if (e.key == KEYS[d][k] && !f) f = &e; ASSERT(f); I32 own = -1; LO idx = -1; for (int r = 0; r < P; ++r) for (auto& e : SN[step][r].e[d]) if (e.key == KEYS[d][k]) {
        if (own < 0) { own = e.rank; idx = e.idx; ASSERT(own >= 0 && own < P); ASSERT(idx >= 0 && idx < (LO)SN[step][own].e[d].size()); ASSERT(SN[step][own].e[d][idx].key == KEYS[d][k]); }
        ASSERT(e.rank == own && e.idx == idx && e.owned == (own == r)); ASSERT(e.global == f->global); ASSERT(e.ord == f->ord); int ok = int(e.t == tval(d, k)) & int(e.c == cval(d, k)); if (d == 0) for (int j = 0; j < S.dim; ++j) ok &= int(e.x[j] == XV[k][j]); ASSERT(ok); }
      ASSERT(own >= 0); if (d == S.dim && op != 3) ASSERT(own == cur[k]); } }
}
H(mig_moves) {
  S = SH[param("SHAPE", 1)]; P = param("P", 2); STEPS = param("STEPS", 1); mpi_sim_eager = (int)osym_choose("eager", 0, 1); mpi_sim_sched_choices = param("SCHED", 0); mpi_sim_order_choices = param("ORDER", 0); int lo = param("OPLO", 0), hi = param("OPHI", 4);
  for (int d = 0; d <= S.dim; ++d) { KEYS[d].clear(); if (S.f == OMEGA_H_HYPERCUBE && d > 0 && d < S.dim) for (int e = 0; e < S.ne; ++e) { int nd = element_degree(S.f, S.dim, d), kd = element_degree(S.f, d, VERT); for (int i = 0; i < nd; ++i) { Key k; for (int j = 0; j < kd; ++j) k.push_back(S.ev[e * S.deg + hypercube_down_template(S.dim, d, i, j)]); std::sort(k.begin(), k.end()); KEYS[d].push_back(k); } }
    else for (int e = 0; e < S.ne; ++e) { int kd = d == S.dim ? S.deg : d + 1; for (int mask = 1; mask < (1 << S.deg); ++mask) { if (__builtin_popcount(mask) != kd) continue; Key k; for (int a = 0; a < S.deg; ++a) if (mask >> a & 1) k.push_back(S.ev[e * S.deg + a]); std::sort(k.begin(), k.end()); KEYS[d].push_back(k); } } std::sort(KEYS[d].begin(), KEYS[d].end()); KEYS[d].erase(std::unique(KEYS[d].begin(), KEYS[d].end()), KEYS[d].end()); }
  int pmax = param("SPREAD", 1); for (int e = 0; e < S.ne; ++e) EL[e] = pmax ? (int)osym_concretize(osym_i32("part", 0, P - 1)) : e % P;
  for (int s = 0; s < STEPS; ++s) { OP[s] = (int)osym_choose("op", lo, hi); if (OP[s] == 4) for (int e = 0; e < S.ne; ++e) NEW[s][e] = (int)osym_concretize(osym_i32("to", 0, P - 1)); }
  for (int i = 0; i < 64; ++i) { TV[i] = osym_i32("t", INT32_MIN, INT32_MAX); } for (size_t i = 0; i < KEYS[0].size(); ++i) for (int j = 0; j < S.dim; ++j) XV[i][j] = osym_f64("x");
  for (size_t i = 0; i < KEYS[0].size(); ++i) for (int j = 0; j < S.dim; ++j) ASSUME(XV[i][j] == XV[i][j]);
  // EL is listed by element; the judge wants it by key
  int order[8], cur[8]; for (int e = 0; e < S.ne; ++e) { Key k(S.ev + e * S.deg, S.ev + (e + 1) * S.deg); order[e] = key_of(S.dim, k); cur[order[e]] = EL[e]; }
  mpi_sim_run(P, ranks); ASSERT(mpi_sim_live_requests() == 0); ASSERT(mpi_sim_unreceived() == 0); ASSERT(mpi_sim_live_comms() == 0);
  judge(0, 0, cur); for (int s = 0; s < STEPS; ++s) { if (OP[s] == 4) for (int k = 0; k < S.ne; ++k) cur[k] = NEW[s][k]; judge(s + 1, OP[s], cur); } REACH("moves");
}
