#pragma once
// small hand-written meshes with coordinates, shared by the mesh-level harnesses
#include "meshck.hpp"
#include "Omega_h_shape.hpp"
#include "Omega_h_quality.hpp"
namespace smallmesh {
// 0: 2 triangles, 1: 4-triangle fan, 2: 2 tets, 3: 2 quads, 4: 3 edges, 5: 3 tets round an edge
inline Mesh topo(Library& lib, int which) {
  static LO const T[] = {0, 1, 2, 2, 1, 3}, FAN[] = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, TT[] = {0, 1, 2, 3, 1, 2, 3, 4}, Q[] = {0, 1, 2, 3, 1, 4, 5, 2}, L[] = {0, 1, 1, 2, 2, 3}, RING[] = {0, 1, 2, 3, 0, 2, 4, 3, 0, 4, 1, 3};
  static struct { LO const* v; int n, dim, nv; Omega_h_Family f; } const k[] = {{T, 6, 2, 4, OMEGA_H_SIMPLEX}, {FAN, 12, 2, 5, OMEGA_H_SIMPLEX}, {TT, 8, 3, 5, OMEGA_H_SIMPLEX}, {Q, 8, 2, 6, OMEGA_H_HYPERCUBE}, {L, 6, 1, 4, OMEGA_H_SIMPLEX}, {RING, 12, 3, 5, OMEGA_H_SIMPLEX}};
  auto& c = k[which]; Write<LO> ev(c.n); for (int i = 0; i < c.n; ++i) ev[i] = c.v[i]; Mesh m(&lib); build_from_elems2verts(&m, c.f, c.dim, LOs(ev), c.nv); return m;
}
inline Reals points(int which, Real s = 1) {
  static Real const T[] = {0, 0, 4, 0, 0, 4, 4, 4}, FAN[] = {0, 0, 4, 0, 4, 4, 0, 4, 2, 2}, TT[] = {0, 0, 0, 4, 0, 0, 0, 4, 0, 0, 0, 4, 4, 4, 4}, Q[] = {0, 0, 2, 0, 2, 2, 0, 2, 4, 0, 4, 2}, L[] = {0, 1, 3, 4}, RING[] = {0, 0, -4, 4, 0, 0, -4, 4, 0, 0, 0, 4, -4, -4, 0};
  static struct { Real const* x; int n; } const k[] = {{T, 8}, {FAN, 10}, {TT, 15}, {Q, 12}, {L, 4}, {RING, 15}};
  // RING: edge 0-3 on the z axis, vertices 1, 2, 4 around it
  Write<Real> w(k[which].n); for (int i = 0; i < k[which].n; ++i) w[i] = k[which].x[i] * s; return w;
}
inline Mesh make(Library& lib, int which, Real s = 1) { Mesh m = topo(lib, which); m.add_tag<Real>(VERT, "coordinates", m.dim(), points(which, s)); return m; }
}
