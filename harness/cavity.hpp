#pragma once
// what a mesh was before a cavity operation, and box meshes to operate on
#include "small.hpp"
#include "Omega_h_class.hpp"
#include "Omega_h_build.hpp"
#include <algorithm>
#include <set>
#include <map>
#include <functional>
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
// ---- a box mesh with an optional interior model line or point, some edges declared short
namespace {
using Ids = std::vector<int>; struct Old { int D, nv; std::vector<Ids> v[4]; std::vector<int> cd[4], ci[4]; std::vector<Real> x; Real size; std::map<Ids, int> at[4]; std::map<int, Real> total; };
}
// the inner model line is bent: collapsing along it changes the shape of both model faces
static bool bent = false;
static Ids sorted(Ids a) { std::sort(a.begin(), a.end()); return a; }
static int parity(Ids a) { int p = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) p ^= a[j] > a[i]; return p; }
static Real measure(Old const& o, std::vector<Real> const& x, Ids const& k) { int D = o.D; auto p = [&](int v, int j) { return x[v * D + j]; }; if (D == 1) return p(k[1], 0) - p(k[0], 0); if (D == 2) return ((p(k[1], 0) - p(k[0], 0)) * (p(k[2], 1) - p(k[0], 1)) - (p(k[1], 1) - p(k[0], 1)) * (p(k[2], 0) - p(k[0], 0))) / 2; Real a[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = p(k[i + 1], j) - p(k[0], j); return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / 6; }
static Old record(Mesh& m) { Old o; o.D = m.dim(); o.nv = m.nverts(); auto c = m.coords(); for (LO i = 0; i < c.size(); ++i) o.x.push_back(c[i]); for (int d = 0; d <= o.D; ++d) { auto ev = d ? m.ask_verts_of(d) : LOs(o.nv, 0, 1); auto cd = m.get_array<I8>(d, "class_dim"); auto ci = m.get_array<ClassId>(d, "class_id"); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(ev[e * (d + 1) + j]); o.at[d][sorted(k)] = (int)o.v[d].size(); o.v[d].push_back(k); o.cd[d].push_back(cd[e]); o.ci[d].push_back(ci[e]); } } o.size = 0; for (size_t e = 0; e < o.v[o.D].size(); ++e) { Real s = measure(o, o.x, o.v[o.D][e]); ASSERT(s > 0); o.size += s; o.total[o.ci[o.D][e]] += s; } return o; }
static Real dist(Old const& o, int a, int b) { Real s = 0; for (int j = 0; j < o.D; ++j) { Real d = o.x[a * o.D + j] - o.x[b * o.D + j]; s += d * d; } return std::sqrt(s); }
static Mesh box(Library& lib) {
  int D = param("D", 2), nx = param("NX", 2), ny = param("NY", 2), nz = param("NZ", 1); Mesh m = build_box(lib.world(), OMEGA_H_SIMPLEX, nx, D > 1 ? ny : 0, D > 2 ? nz : 0, nx, D > 1 ? ny : 0, D > 2 ? nz : 0); auto c = m.coords(); Write<Real> x(c.size()); for (LO i = 0; i < c.size(); ++i) x[i] = c[i]; auto cd = m.get_array<I8>(VERT, "class_dim");
  // move the interior vertices
  if (param("JIT", 1)) { static Real const J[] = {0, 0.25, -0.625}; Real jx = J[choose("jx", 0, param("JMAX", 2))], jy = J[choose("jy", 0, param("JMAX", 2))]; for (LO v = 0; v < m.nverts(); ++v) if (cd[v] == D) { x[v * D] += jx; if (D > 1) x[v * D + 1] += jy; } m.set_coords(Reals(x)); }
  m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), 1.0)); return m;
}
// an interior model line along the middle, or a model point on an interior vertex
static void decorate(Mesh& m, int kind) {
  int D = m.dim(); if (kind == 0 || D != 2) return; auto x = m.coords(); Write<I8> cv = deep_copy(m.get_array<I8>(VERT, "class_dim")), ce = deep_copy(m.get_array<I8>(EDGE, "class_dim")); Write<ClassId> iv = deep_copy(m.get_array<ClassId>(VERT, "class_id")), ie = deep_copy(m.get_array<ClassId>(EDGE, "class_id")), it = deep_copy(m.get_array<ClassId>(2, "class_id")); auto ev = m.ask_verts_of(EDGE), tv = m.ask_verts_of(2);
  auto mid = [&](LO v) { return cv[v] == 2 || (x[v * 2 + 1] == 1 && (x[v * 2] == 0 || x[v * 2] == param("NX", 2))); }; std::vector<int> on; for (LO v = 0; v < m.nverts(); ++v) on.push_back(mid(v));
  if (kind == 1) { for (LO v = 0; v < m.nverts(); ++v) if (cv[v] == 2 && x[v * 2 + 1] != 1) bent = true; for (LO e = 0; e < m.nedges(); ++e) if (on[ev[2 * e]] && on[ev[2 * e + 1]]) { ce[e] = 1; ie[e] = 77; } for (LO v = 0; v < m.nverts(); ++v) if (on[v]) { if (cv[v] == 2) { cv[v] = 1; iv[v] = 77; } else { cv[v] = 0; iv[v] = 70 + v; } } for (LO t = 0; t < m.nelems(); ++t) { Real y = 0; for (int j = 0; j < 3; ++j) y += on[tv[3 * t + j]] ? 1 : x[tv[3 * t + j] * 2 + 1]; if (y > 3) it[t] = 99; } for (LO e = 0; e < m.nedges(); ++e) if (ce[e] == 2) { Real y = 0; for (int j = 0; j < 2; ++j) y += on[ev[2 * e + j]] ? 1 : x[ev[2 * e + j] * 2 + 1]; if (y > 2) ie[e] = 99; } }
  else for (LO v = 0; v < m.nverts(); ++v) if (cv[v] == 2) { cv[v] = 0; iv[v] = 88; }
  m.add_tag<I8>(VERT, "class_dim", 1, Read<I8>(cv)); m.add_tag<I8>(EDGE, "class_dim", 1, Read<I8>(ce)); m.add_tag<ClassId>(VERT, "class_id", 1, Read<ClassId>(iv)); m.add_tag<ClassId>(EDGE, "class_id", 1, Read<ClassId>(ie)); m.add_tag<ClassId>(2, "class_id", 1, Read<ClassId>(it));
}
