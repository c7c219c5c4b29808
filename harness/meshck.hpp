// oracle for the derived adjacencies of a mesh, from its element to vertex lists alone
#pragma once
#include "hh.hpp"
#include "Omega_h_mesh.hpp"
#include "Omega_h_build.hpp"
#include "Omega_h_library.hpp"
#include "Omega_h_element.hpp"
#include "Omega_h_align.hpp"
namespace meshck {
using namespace Omega_h;
inline void aligned(int n, I8 c, LO const* in, LO* out) { if (n == 2) align_adj<2>(c, in, 0, out, 0); else if (n == 3) align_adj<3>(c, in, 0, out, 0); else align_adj<4>(c, in, 0, out, 0); }
inline bool sameset(LO const* a, LO const* b, int n) { for (int i = 0; i < n; ++i) { int c = 0, d = 0; for (int j = 0; j < n; ++j) { c += a[j] == a[i]; d += b[j] == a[i]; } if (c != d) return false; } return true; }
// every derived entity, downward, upward and same-dimension adjacency of the mesh
inline void adjacency(Mesh& m, bool every_side_used = true) {
  auto fam = m.family(); Int D = m.dim(); std::vector<LO> v[4]; int deg[4]; LO n[4];
  for (Int d = 0; d <= D; ++d) { n[d] = m.nents(d); deg[d] = element_degree(fam, d, VERT); if (d == 0) { for (LO i = 0; i < n[0]; ++i) v[0].push_back(i); continue; } auto a = m.ask_verts_of(d); ASSERT(a.size() == n[d] * deg[d]); for (LO i = 0; i < a.size(); ++i) { v[d].push_back(a[i]); ASSERT(a[i] >= 0 && a[i] < n[0]); } }
  for (Int h = 1; h <= D; ++h) for (Int l = 0; l < h; ++l) {
    int nlh = element_degree(fam, h, l); Adj dn = m.ask_down(h, l), up = m.ask_up(l, h); ASSERT(dn.ab2b.size() == n[h] * nlh); ASSERT(up.a2ab.size() == n[l] + 1 && up.ab2b.size() == n[h] * nlh && up.a2ab[0] == 0);
    std::vector<int> used(n[l], 0);
    for (LO e = 0; e < n[h]; ++e) for (int i = 0; i < nlh; ++i) {
      LO b = dn.ab2b[e * nlh + i]; ASSERT(b >= 0 && b < n[l]); ++used[b]; LO want[4], got[4];
      for (int k = 0; k < deg[l]; ++k) want[k] = v[h][e * deg[h] + (l == 0 ? i : element_down_template(fam, h, l, i, k))];
      if (l == 0) { ASSERT(b == want[0]); continue; }
      I8 c = dn.codes[e * nlh + i]; aligned(deg[l], c, &v[l][b * deg[l]], got); for (int k = 0; k < deg[l]; ++k) ASSERT(got[k] == want[k]);
    }
    // upward: exactly the uses, sorted, with the same codes
    for (LO b = 0; b < n[l]; ++b) {
      ASSERT(up.a2ab[b + 1] - up.a2ab[b] == used[b]); if (every_side_used && h == D) ASSERT(used[b] > 0); LO last = -1;
      for (LO k = up.a2ab[b]; k < up.a2ab[b + 1]; ++k) { LO e = up.ab2b[k]; ASSERT(e >= last && e < n[h]); last = e; int w = code_which_down(up.codes[k]); ASSERT(w >= 0 && w < nlh); ASSERT(dn.ab2b[e * nlh + w] == b); for (LO k2 = up.a2ab[b]; k2 < k; ++k2) ASSERT(up.ab2b[k2] != e || code_which_down(up.codes[k2]) != w);
        if (l > 0) { I8 c = dn.codes[e * nlh + w]; ASSERT(code_is_flipped(c) == code_is_flipped(up.codes[k]) && code_rotation(c) == code_rotation(up.codes[k])); } }
    }
  }
  // each lower entity exists once
  for (Int l = 1; l < D; ++l) for (LO a = 0; a < n[l]; ++a) for (LO b = 0; b < a; ++b) ASSERT(!sameset(&v[l][a * deg[l]], &v[l][b * deg[l]], deg[l]));
}
inline void graph_is(Graph g, LO n, std::vector<std::vector<LO>> const& want) {
  ASSERT(g.a2ab.size() == n + 1 && g.a2ab[0] == 0); for (LO a = 0; a < n; ++a) { LO k = g.a2ab[a + 1] - g.a2ab[a]; ASSERT(k == (LO)want[a].size()); for (LO i = 0; i < k; ++i) { LO x = g.ab2b[g.a2ab[a] + i]; int c = 0, d = 0; for (LO j = 0; j < k; ++j) { c += g.ab2b[g.a2ab[a] + j] == x; d += want[a][j] == x; } ASSERT(c == d); } }
}
inline void neighbours(Mesh& m) {
  auto fam = m.family(); Int D = m.dim(); LO ne = m.nents(1), nv = m.nverts(), nl = m.nelems(); auto ev = m.ask_verts_of(1);
  std::vector<std::vector<LO>> w(nv); for (LO e = 0; e < ne; ++e) { w[ev[2 * e]].push_back(ev[2 * e + 1]); w[ev[2 * e + 1]].push_back(ev[2 * e]); } graph_is(m.ask_star(VERT), nv, w);
  if (fam == OMEGA_H_SIMPLEX && D >= 2) {
    std::vector<std::vector<LO>> w1(ne); auto fe = m.ask_down(2, 1).ab2b; for (LO f = 0; f < m.nents(2); ++f) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) w1[fe[3 * f + i]].push_back(fe[3 * f + j]);
    if (D == 3) { auto re = m.ask_down(3, 1).ab2b; for (LO r = 0; r < nl; ++r) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { LO a = re[6 * r + i], b = re[6 * r + j]; if (ev[2 * a] != ev[2 * b] && ev[2 * a] != ev[2 * b + 1] && ev[2 * a + 1] != ev[2 * b] && ev[2 * a + 1] != ev[2 * b + 1]) w1[a].push_back(b); } }
    graph_is(m.ask_star(EDGE), ne, w1);
  }
  int ns = element_degree(fam, D, D - 1); auto es = m.ask_down(D, D - 1).ab2b; bool manifold = true; std::vector<std::vector<LO>> uses(m.nents(D - 1)); for (LO e = 0; e < nl; ++e) for (int i = 0; i < ns; ++i) uses[es[e * ns + i]].push_back(e);
  std::vector<std::vector<LO>> wd(nl); for (auto& u : uses) { if (u.size() > 2) manifold = false; for (LO a : u) for (LO b : u) if (a != b) wd[a].push_back(b); }
  if (manifold) { graph_is(m.ask_dual(), nl, wd); REACH("dual"); }
}
}
