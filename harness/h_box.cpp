#include "meshck.hpp"
#include "Omega_h_box.hpp"
#include "Omega_h_simplify.hpp"
#include "Omega_h_class.hpp"
#include "Omega_h_mark.hpp"
#include "Omega_h_shape.hpp"
// ---- C39: generated boxes
static Real det3(Real const* a, Real const* b, Real const* c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
// d! times the size of the corner of an element spanned by vertex w[0] and its neighbours w[1..d]
static Real corner(Mesh& m, LO const* w) { Int D = m.dim(); auto x = m.coords(); Real b[3][3]; for (Int i = 0; i < D; ++i) for (Int k = 0; k < D; ++k) b[i][k] = x[w[i + 1] * D + k] - x[w[0] * D + k]; if (D == 1) return b[0][0]; if (D == 2) return b[0][0] * b[1][1] - b[0][1] * b[1][0]; return det3(b[0], b[1], b[2]); }
static void check_box(Mesh& m, LO const* n, Real const* l, bool sym, bool classified) {
  Int D = m.dim(); auto fam = m.family(); bool hyp = fam == OMEGA_H_HYPERCUBE; auto ev = m.ask_elem_verts(); auto x = m.coords(); int deg = element_degree(fam, D, 0); LO cells = n[0] * (D > 1 ? n[1] : 1) * (D > 2 ? n[2] : 1), grid = (n[0] + 1) * (D > 1 ? n[1] + 1 : 1) * (D > 2 ? n[2] + 1 : 1);
  int per = hyp || D == 1 ? 1 : D == 2 ? (sym ? 4 : 2) : (sym ? 24 : 6); ASSERT(m.nelems() == cells * per); if (!sym) ASSERT(m.nverts() == grid);
  Real total = 0, vol = 1; for (Int i = 0; i < D; ++i) vol *= l[i];
  for (LO e = 0; e < m.nelems(); ++e) { if (hyp && D > 1) { Real c0 = 1; for (Int i = 0; i < D; ++i) c0 *= l[i]; if (D == 2) { for (int i = 0; i < 4; ++i) { LO w[3] = {ev[e * 4 + i], ev[e * 4 + (i + 1) % 4], ev[e * 4 + (i + 3) % 4]}; ASSERT(corner(m, w) * cells == c0); } } else { LO const* v = nullptr; (void)v; LO w[4] = {ev[e * 8], ev[e * 8 + 1], ev[e * 8 + 3], ev[e * 8 + 4]}, z[4] = {ev[e * 8 + 6], ev[e * 8 + 7], ev[e * 8 + 5], ev[e * 8 + 2]}; ASSERT(corner(m, w) * cells == c0); ASSERT(-corner(m, z) * cells == c0); } total += c0 / cells; }
    else { LO w[4]; for (int i = 0; i <= D; ++i) w[i] = ev[e * deg + i]; Real c = corner(m, w); ASSERT(c > 0); total += c; } }
  ASSERT(total == vol * (hyp || D == 1 ? 1 : D == 2 ? 2 : 6));
  // every vertex of the grid is there, at its place; others are inside
  for (LO v = 0; v < m.nverts(); ++v) for (Int k = 0; k < D; ++k) { ASSERT(x[v * D + k] >= 0 && x[v * D + k] <= l[k]); }
  for (LO k = 0; k < grid; ++k) { LO c[3] = {k % (n[0] + 1), D > 1 ? k / (n[0] + 1) % (n[1] + 1) : 0, D > 2 ? k / (n[0] + 1) / (n[1] + 1) : 0}; int found = 0; for (LO v = 0; v < m.nverts(); ++v) { bool at = true; for (Int i = 0; i < D; ++i) at = at && x[v * D + i] * n[i] == l[i] * c[i]; found += at; } ASSERT(found == 1); }
  // conforming: a side has two elements, or one and lies on the surface of the box
  for (Int d = 0; d <= D; ++d) { LOs dv; int dd = element_degree(fam, d, 0); if (d) dv = m.ask_verts_of(d); Graph up; if (d == D - 1) up = m.ask_up(d, D);
    for (LO i = 0; i < m.nents(d); ++i) { int id = 0, cd = 0; for (Int j = D - 1; j >= 0; --j) { bool lo = true, hi = true; for (int q = 0; q < dd; ++q) { Real y = x[(d ? dv[i * dd + q] : i) * D + j]; if (!(y == 0)) lo = false; if (!(y == l[j])) hi = false; } id = id * 3 + (hi ? 2 : lo ? 0 : 1); cd += !(hi || lo); }
      if (d == D - 1) { LO c = up.a2ab[i + 1] - up.a2ab[i]; ASSERT(c == (cd < D ? 1 : 2)); }
      if (classified) { ASSERT(m.get_array<ClassId>(d, "class_id")[i] == id); ASSERT(m.get_array<I8>(d, "class_dim")[i] == cd); } } }
  REACH("box");
}
static LO count(char const* n, int k) { return (LO)osym_concretize(osym_i32(n, 1, k)); }
// the grid builders for all cell counts and all (integer multiple) side lengths
template <int D, bool HYP> static void grids() {
  Library lib; int K = param("K", D == 3 ? 2 : 4); LO n[3] = {1, 1, 1}; Real l[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) { n[i] = count("n", K); l[i] = n[i] * (Real)osym_fint("s", 1, 20) * 24; }
  LOs ev; Reals x; if (D == 1) make_1d_box(l[0], n[0], &ev, &x); else if (D == 2) make_2d_box(l[0], l[1], n[0], n[1], &ev, &x); else make_3d_box(l[0], l[1], l[2], n[0], n[1], n[2], &ev, &x);
  bool sym = D > 1 && param("SYM", 0); auto fam = HYP || sym ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX; if (fam == OMEGA_H_SIMPLEX) { if (D == 2) ev = tris_from_quads(ev); if (D == 3) ev = tets_from_hexes(ev); }
  Mesh m(&lib); build_from_elems_and_coords(&m, fam, D, ev, x); if (sym) { if (D == 2) tris_from_quads_symmetric(&m); else tets_from_hexes_symmetric(&m); }
  classify_box(&m, l[0], l[1], l[2], n[0], n[1], n[2]); check_box(m, n, l, sym, true);
}
H(grid_1) { grids<1, false>(); }
H(grid_quads) { grids<2, true>(); }
H(grid_tris) { grids<2, false>(); }
H(grid_hexes) { grids<3, true>(); }
H(grid_tets) { grids<3, false>(); }
// the whole builder: reordered, classified and with the names of the box faces
template <int D> static void whole() {
  Library lib; int K = param("K", 2); LO n[3] = {0, 0, 0}; Real l[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) { n[i] = count("n", K); l[i] = n[i] * (Real)osym_choose("s", 1, param("S", 2)); }
  bool hyp = osym_choose("hyp", 0, 1), sym = D > 1 && !hyp && osym_choose("sym", 0, 1); Mesh m = build_box(lib.world(), hyp ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, l[0], l[1], l[2], n[0], n[1], n[2], sym); ASSERT(m.dim() == D); check_box(m, n, l, sym, true);
  char const* nm[3] = {"x", "y", "z"}; int body = D == 1 ? 1 : D == 2 ? 4 : 13, st = 1; ASSERT(m.class_sets["body"].size() == 1 && m.class_sets["body"][0].id == body && m.class_sets["body"][0].dim == D);
  for (int i = 0; i < D; ++i, st *= 3) for (int s = 0; s < 2; ++s) { auto& c = m.class_sets[std::string(nm[i]) + (s ? "+" : "-")]; ASSERT(c.size() == 1 && c[0].dim == D - 1 && c[0].id == body + (s ? st : -st)); }
  if (param("ADJ", 0)) meshck::adjacency(m);
}
H(box_1) { whole<1>(); }
H(box_2) { whole<2>(); }
H(box_3) { whole<3>(); }
