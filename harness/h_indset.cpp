#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_indset.hpp"
#include "Omega_h_ghost.hpp"
#include <algorithm>
// ---- C11: independent sets
// only candidates, no two adjacent, and whoever is left out lost to an adjacent chosen node with a better (quality, global)
static int better(Real qu, GO gu, Real qv, GO gv) { return int(qu > qv) | (int(qu == qv) & int(gu > gv)); }
static void judge(int n, std::vector<std::vector<int>> const& adj, Read<I8> cand, Reals q, GOs g, Read<I8> in) {
  ASSERT(in.size() == n); for (int v = 0; v < n; ++v) { int x = in[v]; int ok = int(x == 0) | int(x == 1); ok &= !(x && !cand[v]); int beaten = 0; for (int u : adj[v]) { ok &= !(x & in[u]); beaten |= int(in[u] == 1) & better(q[u], g[u], q[v], g[v]); } ok &= int(x == 1) | int(cand[v] == 0) | beaten; ASSERT(ok); }
}
static Graph graph_from(std::vector<std::vector<int>> const& adj) { Write<LO> a(adj.size() + 1); a[0] = 0; std::vector<LO> b; for (size_t v = 0; v < adj.size(); ++v) { for (int u : adj[v]) b.push_back(u); a[v + 1] = b.size(); } Write<LO> w(b.size()); for (size_t i = 0; i < b.size(); ++i) w[i] = b[i]; return Graph(LOs(a), LOs(w)); }
static Read<I8> cands(int n) { Write<I8> c(n); for (int i = 0; i < n; ++i) c[i] = (I8)osym_i32("cand", 0, 1); return c; }
static Reals quals(int n) { Write<Real> q(n); int qm = param("Q", 2); for (int i = 0; i < n; ++i) q[i] = osym_fint("qual", -qm, qm); return q; }
static GOs ids(int n) { Write<GO> g(n); for (int i = 0; i < n; ++i) { g[i] = osym_i64("id", 0, I64(1) << 40); for (int j = 0; j < i; ++j) ASSUME(g[j] != g[i]); } return g; }
H(ind_graph) {  // every graph on N nodes
  int N = param("N", 3); Library lib; Write<LO> ev((N - 1) * 2); for (int i = 0; i + 1 < N; ++i) { ev[2 * i] = i; ev[2 * i + 1] = i + 1; } Mesh m(&lib); build_from_elems2verts(&m, OMEGA_H_SIMPLEX, 1, LOs(ev), N);
  std::vector<std::vector<int>> adj(N); for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (osym_choose("edge", 0, 1)) { adj[i].push_back(j); adj[j].push_back(i); }
  auto g = ids(N); m.add_tag<GO>(VERT, "global", 1, g); auto c = cands(N); auto q = quals(N); auto in = find_indset(&m, VERT, graph_from(adj), q, c); judge(N, adj, c, q, g, in); obs("in", in); REACH("indset");
}
H(ind_mesh) {  // vertices and edges of small meshes, adjacent when they share an element
  Library lib; Mesh m = smallmesh::topo(lib, (int)osym_choose("mesh", param("LO", 0), param("HI", 0))); int d = (int)osym_choose("dim", 0, m.dim()); int n = m.nents(d); std::vector<std::vector<int>> adj(n);
  if (d < m.dim()) { auto down = m.ask_down(m.dim(), d).ab2b; int k = down.size() / m.nelems(); for (LO e = 0; e < m.nelems(); ++e) for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { int a = down[e * k + i], b = down[e * k + j]; if (a != b && std::find(adj[a].begin(), adj[a].end(), b) == adj[a].end()) adj[a].push_back(b); } }
  auto g = param("IDS", 1) ? ids(n) : GOs(n, 100, -1); m.add_tag<GO>(d, "global", 1, g); auto c = cands(n); auto q = quals(n); auto in = find_indset(&m, d, q, c); judge(n, adj, c, q, g, in); REACH("indset mesh");
}
// the same choice on a mesh spread over ranks with a layer of ghosts
namespace { int const MR = 3; int P, NE, DEG, DIM, EL[8]; LO const* EV; LO const TRI[] = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, TWO[] = {0, 1, 2, 2, 1, 3}, CHAIN[] = {0, 1, 1, 2, 2, 3, 3, 4}; Real QV[16]; I8 CV[16]; int SEL[MR][16], HAVE[MR][16]; std::vector<std::vector<GO>> KEYS; }
static int key_of(std::vector<GO> k) { std::sort(k.begin(), k.end()); for (size_t i = 0; i < KEYS.size(); ++i) if (KEYS[i] == k) return i; ASSERT(!"an entity of the mesh"); return 0; }
static GO GID[16];
static void ranks(int me) {
  Library lib; std::vector<GO> vg; std::vector<LO> ev; for (int e = 0; e < NE; ++e) if (EL[e] == me) for (int k = 0; k < DEG; ++k) { GO g = EV[e * DEG + k]; if (std::find(vg.begin(), vg.end(), g) == vg.end()) vg.push_back(g); } std::sort(vg.begin(), vg.end());
  for (int e = 0; e < NE; ++e) if (EL[e] == me) for (int k = 0; k < DEG; ++k) ev.push_back(std::find(vg.begin(), vg.end(), (GO)EV[e * DEG + k]) - vg.begin());
  Write<GO> gw(vg.size()); for (size_t i = 0; i < vg.size(); ++i) gw[i] = vg[i]; Write<LO> ew(ev.size()); for (size_t i = 0; i < ev.size(); ++i) ew[i] = ev[i];
  Mesh m(&lib); build_from_elems2verts(&m, lib.world(), OMEGA_H_SIMPLEX, DEG - 1, LOs(ew), GOs(gw)); m.set_parting(OMEGA_H_GHOSTED);
  LO n = m.nents(DIM); auto v0 = m.globals(0); auto evs = DIM ? m.ask_verts_of(DIM) : LOs(n, 0, 1); Write<I8> c(n); Write<Real> q(n); std::vector<int> id(n); auto gl = m.globals(DIM);
  for (LO i = 0; i < n; ++i) { std::vector<GO> k; for (int j = 0; j <= DIM; ++j) k.push_back(v0[evs[i * (DIM + 1) + j]]); id[i] = key_of(k); c[i] = CV[id[i]]; q[i] = QV[id[i]]; GID[id[i]] = gl[i]; }
  auto in = find_indset(&m, DIM, Reals(q), Read<I8>(c)); ASSERT(in.size() == n); for (LO i = 0; i < n; ++i) { HAVE[me][id[i]] = 1; SEL[me][id[i]] = in[i]; }
}
static void spread(LO const* ev, int ne, int deg) {
  P = param("P", 2); mpi_sim_eager = (int)osym_choose("eager", 0, 1); EV = ev; NE = ne; DEG = deg; DIM = param("DIM", 0); for (int e = 0; e < NE; ++e) EL[e] = (int)osym_concretize(osym_i32("part", 0, P - 1)); ASSUME(EL[0] == 0);
  KEYS.clear(); for (int e = 0; e < NE; ++e) for (int mask = 1; mask < (1 << DEG); ++mask) { if (__builtin_popcount(mask) != DIM + 1) continue; std::vector<GO> k; for (int a = 0; a < DEG; ++a) if (mask >> a & 1) k.push_back(EV[e * DEG + a]); std::sort(k.begin(), k.end()); if (std::find(KEYS.begin(), KEYS.end(), k) == KEYS.end()) KEYS.push_back(k); }
  int n = KEYS.size(), qm = param("Q", 1); for (int i = 0; i < n; ++i) { CV[i] = (I8)osym_i32("cand", 0, 1); QV[i] = osym_fint("qual", 0, qm); }
  mpi_sim_run(P, ranks); ASSERT(mpi_sim_live_requests() == 0); ASSERT(mpi_sim_unreceived() == 0); ASSERT(mpi_sim_live_comms() == 0);
  std::vector<std::vector<int>> adj(n); for (int e = 0; e < NE; ++e) { std::vector<int> in; for (int i = 0; i < n; ++i) { int all = 1; for (GO g : KEYS[i]) all &= std::find(EV + e * DEG, EV + e * DEG + DEG, (LO)g) != EV + e * DEG + DEG; if (all) in.push_back(i); } for (int a : in) for (int b : in) if (a != b && std::find(adj[a].begin(), adj[a].end(), b) == adj[a].end()) adj[a].push_back(b); }
  Write<I8> c(n), sel(n); Write<Real> q(n); Write<GO> g(n); for (int i = 0; i < n; ++i) { c[i] = CV[i]; q[i] = QV[i]; g[i] = GID[i]; int first = -1; for (int r = 0; r < P; ++r) if (HAVE[r][i]) { if (first < 0) first = r; ASSERT(SEL[r][i] == SEL[first][i]); } ASSERT(first >= 0); sel[i] = (I8)SEL[first][i]; }
  judge(n, adj, Read<I8>(c), Reals(q), GOs(g), Read<I8>(sel)); REACH("indset ranks");
}
H(ind_chain) { spread(CHAIN, 4, 2); }
H(ind_two) { spread(TWO, 2, 3); }
H(ind_fan) { spread(TRI, 4, 3); }
