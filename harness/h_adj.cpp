#include "meshck.hpp"
#include "Omega_h_adj.hpp"
#include "Omega_h_mark.hpp"
#include "Omega_h_class.hpp"
// ---- C08: derived adjacencies of every small mesh
static void concr(std::vector<LO>& ev) { for (auto& x : ev) x = (LO)osym_concretize(x); }
static void run(Omega_h_Family fam, int dim, std::vector<LO> const& ev, int nv) {
  Library lib; Mesh m(&lib); Write<LO> w((LO)ev.size()); for (LO i = 0; i < (LO)ev.size(); ++i) w[i] = ev[i];
  build_from_elems2verts(&m, fam, dim, LOs(w), nv);
  int deg = element_degree(fam, dim, 0); ASSERT(m.nelems() == (LO)ev.size() / deg); auto got = m.ask_elem_verts(); for (LO i = 0; i < (LO)ev.size(); ++i) ASSERT(got[i] == ev[i]);
  meshck::adjacency(m, false); meshck::neighbours(m);
  // sides without users do not exist: every derived entity bounds an element
  for (int d = 1; d < dim; ++d) { auto up = m.ask_up(d, dim); for (LO i = 0; i < m.nents(d); ++i) ASSERT(up.a2ab[i + 1] > up.a2ab[i]); }
  for (int d = 0; d <= dim; ++d) obs("n", LOs(1, m.nents(d)));
  REACH("built");
}
// E simplices of dimension D over V vertices, all vertex numbers symbolic (distinct within an element); the first F elements are fixed
template <int D> static void simplices() {
  int E = param("E", 2), V = param("V", D + 2), F = param("F", 0); std::vector<LO> ev; for (int e = 0; e < E; ++e) for (int i = 0; i <= D; ++i) { LO x = e < F ? (i + e) % V : osym_i32("v", 0, V - 1); for (int j = 0; j < i; ++j) ASSUME(ev[e * (D + 1) + j] != x); ev.push_back(x); }
  concr(ev); run(OMEGA_H_SIMPLEX, D, ev, V);
}
H(adj_edges) { simplices<1>(); }
H(adj_tris) { simplices<2>(); }
H(adj_tets) { simplices<3>(); }
// two hypercubes sharing a side, each listed from any corner in any orientation, with relabelled vertices
static void relabel(std::vector<LO>& ev, int V) { int i = osym_i32("i", 0, V - 1), j = osym_i32("j", 0, V - 1); ASSUME(i < j || (i == 0 && j == 0)); i = (int)osym_concretize(i); j = (int)osym_concretize(j); for (auto& x : ev) x = x == i ? j : x == j ? i : x; }
H(adj_quads) {
  std::vector<LO> ev{0, 1, 2, 3, 1, 4, 5, 2}; std::vector<LO> o; for (int e = 0; e < 2; ++e) { int r = (int)osym_concretize(osym_i32("r", 0, 3)); bool fl = osym_concretize(osym_i32("f", 0, 1)); for (int i = 0; i < 4; ++i) o.push_back(ev[e * 4 + ((fl ? 4 - i : i) + r) % 4]); }
  relabel(o, 6); run(OMEGA_H_HYPERCUBE, 2, o, 6);
}
H(adj_hexes) {
  std::vector<LO> ev{0, 1, 2, 3, 4, 5, 6, 7, 1, 8, 9, 2, 5, 10, 11, 6}, o(16); int const B[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  int const P[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}};
  for (int e = 0; e < 2; ++e) { int p = e < param("F", 1) ? 0 : (int)osym_concretize(osym_i32("p", 0, 5)), f = e < param("F", 1) ? 0 : (int)osym_concretize(osym_i32("f", 0, 7));
    for (int i = 0; i < 8; ++i) { int c[3]; for (int k = 0; k < 3; ++k) c[k] = B[i][P[p][k]] ^ ((f >> k) & 1); for (int j = 0; j < 8; ++j) if (B[j][0] == c[0] && B[j][1] == c[1] && B[j][2] == c[2]) o[e * 8 + i] = ev[e * 8 + j]; } }
  if (param("RELABEL", 0)) relabel(o, 12); run(OMEGA_H_HYPERCUBE, 3, o, 12);
}
