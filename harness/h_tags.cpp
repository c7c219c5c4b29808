#include "small.hpp"
#include "Omega_h_tag.hpp"
#include "Omega_h_shape.hpp"
#include <map>
// ---- C30: fields on mesh entities
static Mesh triangles(Library& lib) { Mesh m(&lib); Write<LO> ev(6); LO const t[6] = {0, 1, 2, 2, 1, 3}; for (int i = 0; i < 6; ++i) ev[i] = t[i]; build_from_elems2verts(&m, OMEGA_H_SIMPLEX, 2, LOs(ev), 4); return m; }
namespace { struct F { int type, nc; std::vector<I64> v; }; char const* const NM[3] = {"a", "ab", "b"}; }
template <class T> static T rawval(char const* n) { return Sym<T>::any(n); }
static I64 keep(I8 x) { return x; } static I64 keep(I32 x) { return x; } static I64 keep(I64 x) { return x; } static I64 keep(Real x) { return (I64)osym_dbits(x); }
template <class T> static Read<T> values(LO n, F& f) { Write<T> w(n); f.v.clear(); for (LO i = 0; i < n; ++i) { T x = rawval<T>("x"); w[i] = x; f.v.push_back(keep(x)); } return w; }
template <class T> static void same(Mesh& m, int d, char const* n, F const& f, Omega_h_Type t) { auto tb = m.get_tagbase(d, n); ASSERT(tb->type() == t && tb->ncomps() == f.nc && tb->name() == n); auto a = m.get_array<T>(d, n); ASSERT(a.size() == (LO)f.v.size()); for (LO i = 0; i < a.size(); ++i) ASSERT(keep(a[i]) == f.v[i]); ASSERT(m.get_tag<T>(d, n)->array().size() == a.size()); }
using Model = std::map<std::pair<int, int>, F>;
static void check(Mesh& m, Model const& mod) {
  for (int d = 0; d <= 2; ++d) { int cnt = 1; /* "global" */ for (int k = 0; k < 3; ++k) { auto it = mod.find({d, k}); ASSERT(m.has_tag(d, NM[k]) == (it != mod.end())); if (it == mod.end()) continue; ++cnt; auto& f = it->second; if (f.type == 0) same<I8>(m, d, NM[k], f, OMEGA_H_I8); else if (f.type == 1) same<I32>(m, d, NM[k], f, OMEGA_H_I32); else if (f.type == 2) same<I64>(m, d, NM[k], f, OMEGA_H_I64); else same<Real>(m, d, NM[k], f, OMEGA_H_F64); }
    ASSERT(m.has_tag(d, "global")); ASSERT(m.ntags(d) == cnt); for (int i = 0; i < cnt; ++i) { auto nm = m.get_tag(d, i)->name(); for (int j = 0; j < i; ++j) ASSERT(m.get_tag(d, j)->name() != nm); } auto all = get_all_mesh_tags(&m); ASSERT((int)all[d].size() == cnt); }
}
template <class T> static void put(Mesh& m, int d, int k, int nc, int how, F& f) { LO n = m.nents(d) * nc; f.nc = nc; auto a = values<T>(n, f); if (how == 0) m.add_tag<T>(d, NM[k], nc, a); else if (how == 1) m.add_tag<T>(d, NM[k], nc, a, true); else if (how == 2) m.set_tag<T>(d, NM[k], a); else { m.add_tag<T>(d, NM[k], nc); m.set_tag<T>(d, NM[k], a); } }
H(tag_history) {
  Library lib; Mesh m = triangles(lib); Model mod; int S = param("S", 2), rm = param("RM", 3);
  for (int s = 0; s < S; ++s) {
    int d = s + 1 < S && !param("ALLD", 0) ? (int)osym_concretize(osym_i32("d", 0, 1)) * 2 : (int)osym_concretize(osym_i32("d", 0, 2)), k = (int)osym_concretize(osym_i32("k", 0, 2)), op = (int)osym_concretize(osym_i32("op", 0, rm));
    if (op == 3) { m.remove_tag(d, NM[k]); mod.erase({d, k}); }
    else { F f; f.type = (int)osym_concretize(osym_i32("t", 0, 3)); int nc = (int)osym_concretize(osym_i32("nc", 1, 2)); int how = op == 0 ? (s & 1 ? 3 : 0) : op; if (f.type == 0) put<I8>(m, d, k, nc, how, f); else if (f.type == 1) put<I32>(m, d, k, nc, how, f); else if (f.type == 2) put<I64>(m, d, k, nc, how, f); else put<Real>(m, d, k, nc, how, f); mod[{d, k}] = f; }
    check(m, mod); Mesh c = m; check(c, mod);
  }
  REACH("history");
}
// a copy of a mesh shares nothing that can be changed through either
H(tag_copies) {
  Library lib; Mesh m = triangles(lib); Model a; F f; f.type = 1; put<I32>(m, 0, 0, 1, 0, f); a[{0, 0}] = f; Mesh c = m; Model b = a; int op = (int)osym_concretize(osym_i32("op", 0, 2));
  if (op == 0) { m.remove_tag(0, "a"); a.clear(); } else if (op == 1) { F g; g.type = 3; put<Real>(m, 0, 0, 2, 0, g); a[{0, 0}] = g; } else { F g; g.type = 0; put<I8>(m, 2, 2, 1, 2, g); a[{2, 2}] = g; } check(m, a); check(c, b); REACH("copies");
}
// what is not there, or has another type or size, is refused
H(tag_refused) {
  Library lib; Mesh m = triangles(lib); F f; f.type = (int)osym_concretize(osym_i32("t", 0, 3)); int d = (int)osym_concretize(osym_i32("d", 0, 2)), w = (int)osym_concretize(osym_i32("w", 0, 11)); if (f.type == 0) put<I8>(m, d, 0, 1, 0, f); else if (f.type == 1) put<I32>(m, d, 0, 1, 0, f); else if (f.type == 2) put<I64>(m, d, 0, 1, 0, f); else put<Real>(m, d, 0, 1, 0, f);
  REACH("refused"); osym_expect_abort(1);
  if (w == 0) m.get_array<I32>(d, "b"); else if (w == 1) m.get_tagbase(d, "ab"); else if (w == 2) m.get_array<Real>((d + 1) % 3, "a");
  else if (w == 3) { if (f.type == 0) m.get_array<I32>(d, "a"); else m.get_array<I8>(d, "a"); } else if (w == 4) { if (f.type == 3) m.get_array<I64>(d, "a"); else m.get_array<Real>(d, "a"); } else if (w == 5) { if (f.type == 2) m.get_tag<I32>(d, "a"); else m.get_tag<I64>(d, "a"); } else if (w == 6) m.add_tag<I32>(d, "b", 1, Read<I32>(m.nents(d) + 1, 0)); else if (w == 7) m.add_tag<I32>(d, "a", 2, Read<I32>(m.nents(d), 0)); else if (w == 8) m.add_tag<I32>(3, "b", 1, Read<I32>(1, 0)); else if (w == 9) m.get_tag(d, m.ntags(d)); else if (w == 10) m.get_tag(d, -1); else m.add_tag<I32>(d, "", 1, Read<I32>(m.nents(d), 0));
  ASSERT(!"refused");
}
// cached measures follow the coordinates and metric they were computed from
H(tag_caches) {
  Library lib; Mesh m = triangles(lib); auto xs = [&](int k) { Write<Real> x(8); Real const b[8] = {0, 0, 4, 0, 0, 4, 4, 4}; for (int i = 0; i < 8; ++i) x[i] = b[i] * k; return Reals(x); };
  m.add_tag<Real>(VERT, "coordinates", 2, xs(1)); m.add_tag<Real>(VERT, "metric", 1, Reals(4, 1.0)); auto l0 = m.ask_lengths(); auto q0 = m.ask_qualities(); auto s0 = m.ask_sizes(); bool lt = m.has_tag(1, "length") && m.has_tag(2, "quality") && m.has_tag(2, "size"); ASSERT(lt);
  int k = 1 << (int)osym_concretize(osym_i32("k", 0, 2)), how = (int)osym_concretize(osym_i32("how", 0, 4));
  if (how == 0) m.set_coords(xs(k)); else if (how == 1) m.set_tag<Real>(VERT, "coordinates", xs(k)); else if (how == 2) m.add_tag<Real>(VERT, "coordinates", 2, xs(k)); else if (how == 3) m.set_tag<Real>(VERT, "metric", Reals(4, 1.0 * k * k)); else { m.add_tag<Real>(EDGE, "metric", 1, Reals(5, 1.0)); k = 1; }
  auto l = m.ask_lengths(); auto s = m.ask_sizes(); for (LO i = 0; i < 5; ++i) ASSERT(l[i] == l0[i] * k); for (LO i = 0; i < 2; ++i) ASSERT(s[i] == s0[i] * (how < 3 ? k * k : 1)); auto q = m.ask_qualities(); for (LO i = 0; i < 2; ++i) { Real d = q[i] - q0[i]; ASSERT(d < 1e-10 && d > -1e-10); } REACH("caches");
}

// cached edge lengths, qualities and sizes always equal a fresh measurement, whatever was replaced before
static Reals metric_of(int dim, LO n, int kind, Real base) { if (kind == 0) return Reals(n, base); int nc = symm_ncomps(dim); Write<Real> w(n * nc); for (LO i = 0; i < n; ++i) for (int c = 0; c < nc; ++c) w[i * nc + c] = c < dim ? base * (c + 1 + 0.25 * i) : 0.125 * base; return w; }
static void same_bits(Reals a, Reals b) { ASSERT(a.size() == b.size()); for (LO i = 0; i < a.size(); ++i) ASSERT(osym_dbits(a[i]) == osym_dbits(b[i])); }
H(tag_caches_fresh) {
  static int const W[] = {0, 2, 5, 4}; int which = W[osym_choose("mesh", 0, 3)];
  Library lib; Mesh m = smallmesh::make(lib, which); int D = m.dim(); LO n = m.nverts(); int k0 = D > 1 ? (int)osym_choose("aniso0", 0, 1) : 0;
  m.add_tag<Real>(VERT, "metric", k0 ? symm_ncomps(D) : 1, metric_of(D, n, k0, 1.0)); int steps = param("STEPS", 2);
  for (int t = 0; t < steps; ++t) {
    int ask = (int)osym_choose("ask", 0, 3); if (ask & 1) m.ask_lengths(); if (ask & 2) { m.ask_qualities(); m.ask_sizes(); }
    int how = (int)osym_choose("how", 0, 3); Real f = 2 + t;
    if (how == 0) m.set_coords(smallmesh::points(which, f)); else if (how == 1) m.set_tag<Real>(VERT, "coordinates", smallmesh::points(which, f)); else if (how == 2) m.set_tag<Real>(VERT, "metric", metric_of(D, n, k0, f)); else { m.remove_tag(VERT, "metric"); m.add_tag<Real>(VERT, "metric", k0 ? symm_ncomps(D) : 1, metric_of(D, n, k0, f)); }
  }
  same_bits(m.ask_lengths(), measure_edges_metric(&m)); same_bits(m.ask_qualities(), measure_qualities(&m)); same_bits(m.ask_sizes(), measure_elements_real(&m)); REACH("caches fresh");
}
