#include "meshck.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_owners.hpp"
#include "Omega_h_globals.hpp"
#include "Omega_h_linpart.hpp"
#include "Omega_h_future.hpp"
#include "Omega_h_tag.hpp"
#include <algorithm>
// ---- C15: one owner per global number, copies agree
namespace { int const MR = 3, MX = 6; int P, N[MR], USE; GO G[MR][MX]; I32 PREF[MR][MX], RK[MR][MX]; LO IX[MR][MX]; }
static int pick(char const* n, int lo, int hi) { return (int)osym_concretize(osym_i32(n, lo, hi)); }
static void start(int dp) { P = param("P", dp); mpi_sim_eager = (int)osym_choose("eager", 0, 1); mpi_sim_sched_choices = param("SCHED", 0); mpi_sim_probe_choices = param("PROBE", 0); mpi_sim_order_choices = param("ORDER", 0); }
static void finish() { ASSERT(mpi_sim_live_requests() == 0); ASSERT(mpi_sim_unreceived() == 0); ASSERT(mpi_sim_live_comms() == 0); }
static void own(int me) {
  Library lib; Write<GO> g(N[me]); Write<I32> w(N[me]); for (int i = 0; i < N[me]; ++i) { g[i] = G[me][i]; w[i] = PREF[me][i]; }
  auto o = owners_from_globals(lib.world(), GOs(g), USE ? Read<I32>(w) : Read<I32>()); ASSERT(o.ranks.size() == N[me] && o.idxs.size() == N[me]); for (int i = 0; i < N[me]; ++i) { RK[me][i] = o.ranks[i]; IX[me][i] = o.idxs[i]; }
}
H(own_globals) {  // any subset of the global numbers on each rank, in any order; owners free or prescribed
  start(2); int ng = param("NG", 3); USE = (int)osym_choose("use", 0, 1);
  for (int r = 0; r < P; ++r) { N[r] = pick("n", 0, param("N", 2)); for (int i = 0; i < N[r]; ++i) { G[r][i] = (GO)osym_concretize(osym_i64("g", 0, ng - 1)); for (int j = 0; j < i; ++j) ASSUME(G[r][j] != G[r][i]); } }
  int want[8]; for (int g = 0; g < ng; ++g) { want[g] = -1; if (!USE) continue; int any = 0; for (int r = 0; r < P; ++r) for (int i = 0; i < N[r]; ++i) any |= G[r][i] == g; if (!any) continue; want[g] = pick("owner", 0, P - 1); int has = 0; for (int i = 0; i < N[want[g]]; ++i) has |= G[want[g]][i] == g; ASSUME(has); }
  for (int r = 0; r < P; ++r) for (int i = 0; i < N[r]; ++i) PREF[r][i] = want[G[r][i]];
  mpi_sim_run(P, own); finish();
  for (int r = 0; r < P; ++r) for (int i = 0; i < N[r]; ++i) { I32 k = RK[r][i]; LO x = IX[r][i]; ASSERT(k >= 0 && k < P); ASSERT(x >= 0 && x < N[k]); ASSERT(G[k][x] == G[r][i]); if (USE) ASSERT(k == PREF[r][i]); for (int q = 0; q < P; ++q) for (int j = 0; j < N[q]; ++j) if (G[q][j] == G[r][i]) ASSERT(RK[q][j] == k && IX[q][j] == x); }
  REACH("own");
}
// ---- a small mesh with its elements spread over the ranks in every way
namespace {
struct Ent { std::vector<GO> key; I32 rank; LO idx; GO global; int owned; I64 in[2], sync[2], isync[2], red[3], tag[3], sub; };
struct Part { std::vector<Ent> e[4]; GO n[4]; LO nowned[4]; std::vector<I64> ownedv[4]; std::vector<GO> fresh[4]; };
Part part[MR]; int EL[8], NE, REV, DIMS, SUB;
LO const TRI[] = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, TWO[] = {0, 1, 2, 2, 1, 3}, CHAIN[] = {0, 1, 1, 2, 2, 0, 2, 3}, TETS[] = {0, 1, 2, 3, 1, 2, 3, 4}; 
LO const* EV; int DEG;
}
static I64 VALS[MR][4][10][2];
static void spread(int me) {
  Library lib; CommPtr c = lib.world(); std::vector<GO> vg; std::vector<LO> ev; for (int e = 0; e < NE; ++e) if (EL[e] == me) for (int k = 0; k < DEG; ++k) { GO g = EV[e * DEG + k]; if (std::find(vg.begin(), vg.end(), g) == vg.end()) vg.push_back(g); }
  if (!REV) std::sort(vg.begin(), vg.end()); for (int e = 0; e < NE; ++e) if (EL[e] == me) for (int k = 0; k < DEG; ++k) ev.push_back(std::find(vg.begin(), vg.end(), (GO)EV[e * DEG + k]) - vg.begin());
  Write<GO> gw(vg.size()); for (size_t i = 0; i < vg.size(); ++i) gw[i] = vg[i]; Write<LO> ew(ev.size()); for (size_t i = 0; i < ev.size(); ++i) ew[i] = ev[i];
  Mesh m(&lib); build_from_elems2verts(&m, c, OMEGA_H_SIMPLEX, DEG - 1, LOs(ew), GOs(gw)); auto& p = part[me];
  for (int d = 0; d < DEG; ++d) {
    LO n = m.nents(d); ASSERT(n <= 10); auto o = m.ask_owners(d); auto gl = m.globals(d); auto ow = m.owned(d); auto v0 = m.globals(0); auto evs = d ? m.ask_verts_of(d) : LOs(n, 0, 1); p.e[d].resize(n); p.n[d] = m.nglobal_ents(d); p.nowned[d] = m.nents_owned(d);
    Write<I64> a(n * 2); for (LO i = 0; i < n * 2; ++i) a[i] = VALS[me][d][i / 2][i % 2]; Write<I64> one(n); for (LO i = 0; i < n; ++i) one[i] = VALS[me][d][i][0];
    auto s = m.sync_array(d, Read<I64>(a), 2); auto is = m.isync_array(d, Read<I64>(a), 2).get(); Read<I64> r[3]; Omega_h_Op ops[3] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM}; for (int k = 0; k < 3; ++k) r[k] = m.reduce_array(d, Read<I64>(one), 1, ops[k]);
    ASSERT(s.size() == n * 2 && is.size() == n * 2 && r[0].size() == n); auto fresh = globals_from_owners(&m, d); ASSERT(fresh.size() == n); for (LO i = 0; i < n; ++i) p.fresh[d].push_back(fresh[i]);
    m.add_tag<I64>(d, "s", 2, Read<I64>(a)); m.sync_tag(d, "s"); auto st = m.get_array<I64>(d, "s"); for (LO i = 0; i < n * 2; ++i) ASSERT(st[i] == s[i]);
    Read<I64> rt[3]; for (int k = 0; k < 3; ++k) { m.add_tag<I64>(d, "r", 1, Read<I64>(one)); m.reduce_tag(d, "r", ops[k]); m.sync_tag(d, "r"); rt[k] = m.get_array<I64>(d, "r"); m.remove_tag(d, "r"); }
    auto oa = m.owned_array(d, Read<I64>(one), 1); for (LO i = 0; i < oa.size(); ++i) p.ownedv[d].push_back(oa[i]);
    // every other entity carries a value, the rest a default
    LO ns = 0; for (LO i = 0; i < n; ++i) ns += gl[i] % 2 == SUB; Write<LO> sub(ns); Write<I64> sv(ns); ns = 0; for (LO i = 0; i < n; ++i) if (gl[i] % 2 == SUB) { sub[ns] = i; sv[ns++] = VALS[me][d][i][1]; } auto ss = m.sync_subset_array(d, Read<I64>(sv), LOs(sub), I64(-7), 1); ASSERT(ss.size() == ns);
    for (LO i = 0; i < n; ++i) { auto& e = p.e[d][i]; for (int k = 0; k <= d; ++k) e.key.push_back(v0[evs[i * (d + 1) + k]]); std::sort(e.key.begin(), e.key.end()); e.rank = o.ranks[i]; e.idx = o.idxs[i]; e.global = gl[i]; e.owned = ow[i]; for (int k = 0; k < 2; ++k) { e.in[k] = a[i * 2 + k]; e.sync[k] = s[i * 2 + k]; e.isync[k] = is[i * 2 + k]; } for (int k = 0; k < 3; ++k) { e.red[k] = r[k][i]; e.tag[k] = rt[k][i]; } e.sub = -7; }
    for (LO j = 0; j < ns; ++j) p.e[d][sub[j]].sub = ss[j];
  }
  meshck::adjacency(m);
}
static void judge(int d, bool shared) {
  std::vector<std::vector<GO>> keys; for (int r = 0; r < P; ++r) for (auto& e : part[r].e[d]) if (std::find(keys.begin(), keys.end(), e.key) == keys.end()) keys.push_back(e.key);
  // the global entities are exactly those of the whole mesh
  std::vector<std::vector<GO>> all; for (int e = 0; e < NE; ++e) for (int mask = 1; mask < (1 << DEG); ++mask) { if (__builtin_popcount(mask) != d + 1) continue; std::vector<GO> k; for (int a = 0; a < DEG; ++a) if (mask >> a & 1) k.push_back(EV[e * DEG + a]); std::sort(k.begin(), k.end()); all.push_back(k); }
  std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end()); std::sort(keys.begin(), keys.end()); ASSERT(keys == all);
  int ng = keys.size(); std::vector<GO> fresh; LO nown = 0; for (int r = 0; r < P; ++r) { ASSERT(part[r].n[d] == ng); nown += part[r].nowned[d]; LO own = 0; for (auto& e : part[r].e[d]) own += e.owned; ASSERT(own == part[r].nowned[d] && own == (LO)part[r].ownedv[d].size()); LO k = 0; for (auto& e : part[r].e[d]) if (e.owned) ASSERT(part[r].ownedv[d][k++] == e.in[0]); }
  ASSERT(nown == ng);
  for (auto& key : keys) {
    I32 k = -1; LO x = -1; GO g = -1, f = -1; I64 lo = INT64_MAX, hi = INT64_MIN, sum = 0; int copies = 0;
    for (int r = 0; r < P; ++r) { int here = 0; for (LO i = 0; i < (LO)part[r].e[d].size(); ++i) { auto& e = part[r].e[d][i]; if (e.key != key) continue; ++here; ++copies; if (k < 0) { k = e.rank; x = e.idx; g = e.global; f = part[r].fresh[d][i]; } ASSERT(e.rank == k && e.idx == x); ASSERT(e.global == g); ASSERT(part[r].fresh[d][i] == f); ASSERT(e.owned == (k == r)); lo = std::min(lo, e.in[0]); hi = std::max(hi, e.in[0]); sum += e.in[0]; } ASSERT(here <= 1); }
    ASSERT(k >= 0 && k < P); ASSERT(x >= 0 && x < (LO)part[k].e[d].size()); auto& o = part[k].e[d][x]; ASSERT(o.key == key); ASSERT(g >= 0 && g < ng); fresh.push_back(f); if (!shared) ASSERT(copies == 1);
    ASSERT(o.red[0] == lo && o.red[1] == hi && o.red[2] == sum);
    for (int r = 0; r < P; ++r) for (auto& e : part[r].e[d]) if (e.key == key) { for (int c = 0; c < 2; ++c) ASSERT(e.sync[c] == o.in[c] && e.isync[c] == o.in[c]); ASSERT(e.tag[0] == lo && e.tag[1] == hi && e.tag[2] == sum); if (e.global % 2 == SUB) ASSERT(e.sub == o.in[1]); }
  }
  for (int r = 0; r < P; ++r) { GO last = -1; for (LO i = 0; i < (LO)part[r].e[d].size(); ++i) if (part[r].e[d][i].owned) { GO f = part[r].fresh[d][i]; if (last >= 0) ASSERT(f == last + 1); last = f; } }
  std::sort(fresh.begin(), fresh.end()); for (int i = 0; i < ng; ++i) ASSERT(fresh[i] == i);
}
static void problem(LO const* ev, int ne, int deg) {
  start(2); EV = ev; NE = ne; DEG = deg; REV = (int)osym_choose("rev", 0, 1); SUB = (int)osym_choose("sub", 0, 1); for (int e = 0; e < NE; ++e) EL[e] = pick("part", 0, P - 1);
  for (int r = 0; r < P; ++r) for (int d = 0; d < DEG; ++d) for (int i = 0; i < 10; ++i) for (int c = 0; c < 2; ++c) VALS[r][d][i][c] = osym_i64("v", -1000000, 1000000);
  mpi_sim_run(P, spread); finish(); for (int d = 0; d < DEG; ++d) judge(d, d < DEG - 1); REACH("spread");
}
H(own_edges) { problem(CHAIN, 4, 2); }
H(own_two) { problem(TWO, 2, 3); }
H(own_fan) { problem(TRI, 4, 3); }
H(own_tets) { problem(TETS, 2, 4); }
