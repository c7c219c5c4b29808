#include "hh.hpp"
#include "Omega_h_align.hpp"
#include "Omega_h_adj.hpp"
#include "Omega_h_element.hpp"
// ---- C09: alignment codes
static I8 anycode(int n) { bool f = osym_choose("flip", 0, 1); int r = (int)osym_choose("rot", 0, n - 1); return make_code(f, r, 0); }
template <int N> static void applied(I8 c, LO const* in, LO* out) { align_adj<N>(c, in, 0, out, 0); }
template <int N> static void align_group() {
  I8 c1 = anycode(N), c2 = anycode(N); LO v[N], a[N], b[N], d[N]; for (int i = 0; i < N; ++i) v[i] = osym_i32("v", INT32_MIN, INT32_MAX);
  applied<N>(c1, v, a); applied<N>(c2, a, b); I8 c12 = compound_alignments<N>(c1, c2); applied<N>(c12, v, d); for (int i = 0; i < N; ++i) ASSERT(b[i] == d[i]);
  if (N < 4) ASSERT(compound_alignments(N, c1, c2) == c12);
  I8 inv = invert_alignment(N, c1); applied<N>(inv, a, d); for (int i = 0; i < N; ++i) ASSERT(d[i] == v[i]); 
  applied<N>(inv, v, d); applied<N>(c1, d, b); for (int i = 0; i < N; ++i) ASSERT(b[i] == v[i]);
  ASSERT(code_rotation(c12) >= 0 && code_rotation(c12) < N && code_which_down(c12) == 0); ASSERT(code_rotation(inv) < N);
  // the lists agree with the index maps
  for (int i = 0; i < N; ++i) { ASSERT(a[align_vert_index(N, i, c1)] == v[i]); ASSERT(align_index(N, 0, i, c1) == align_vert_index(N, i, c1)); }
  // edge k joins vertices k, k+1: its image joins the images
  if (N > 2) for (int k = 0; k < N; ++k) { int e = align_index(N, 1, k, c1), p = align_vert_index(N, k, c1), q = align_vert_index(N, (k + 1) % N, c1); ASSERT(0 <= e && e < N); ASSERT((e == p && (e + 1) % N == q) || (e == q && (e + 1) % N == p)); ASSERT(code_is_flipped(c1) == (e == q)); }
  LO w[2 * N]; for (int i = 0; i < 2 * N; ++i) w[i] = osym_i32("w", INT32_MIN, INT32_MAX); Write<LO> ev(2 * N); for (int i = 0; i < 2 * N; ++i) ev[i] = w[i]; Write<I8> cs(2); cs[0] = c1; cs[1] = c2;
  LOs out = align_ev2v(N, LOs(ev), Bytes(cs)); for (int k = 0; k < 2; ++k) { applied<N>(k ? c2 : c1, w + k * N, d); for (int i = 0; i < N; ++i) ASSERT(out[k * N + i] == d[i]); }
  Write<GO> ge(N); for (int i = 0; i < N; ++i) ge[i] = (GO)v[i] << 8; GOs go = align_ev2v(N, GOs(ge), Bytes(1, c1)); for (int i = 0; i < N; ++i) ASSERT(go[i] == (GO)a[i] << 8);
  obs("out", out); REACH("group");
}
H(align_group2) { align_group<2>(); }
H(align_group3) { align_group<3>(); }
H(align_group4) { align_group<4>(); }
H(align_pack) {
  bool f = osym_i32("f", 0, 1); int r = osym_i32("r", 0, 3), w = osym_i32("w", 0, 15); I8 c = make_code(f, r, w);
  ASSERT(code_is_flipped(c) == f); ASSERT(code_rotation(c) == r); ASSERT(code_which_down(c) == w); 
  int n = (int)osym_choose("n", 2, 4); int k = (int)osym_choose("k", 0, n - 1); ASSERT(rotate_index(n, k, rotation_to_first(n, k)) == 0); for (int i = 0; i < n; ++i) for (int q = 0; q < n; ++q) ASSERT(rotate_index(n, rotate_index(n, i, q), invert_rotation(n, q)) == i);
  REACH("pack");
}
template <int N, class T> static void align_canon() {
  int ne = N == 2 ? 2 : 1; Write<T> ev = anys<T>("v", ne * N); for (int e = 0; e < ne; ++e) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) { ASSUME(ev[e * N + i] != ev[e * N + j]); osym_concretize(ev[e * N + i] < ev[e * N + j]); }  // every relative order is a path
  Bytes c = get_codes_to_canonical(N, Read<T>(ev)); Read<T> out = align_ev2v(N, Read<T>(ev), c);
  for (int e = 0; e < ne; ++e) {
    ASSERT(code_which_down(c[e]) == 0); for (int i = 1; i < N; ++i) ASSERT(out[e * N] < out[e * N + i]); if (N > 2) ASSERT(out[e * N + 1] < out[e * N + N - 1]);
    for (int i = 0; i < N; ++i) { bool there = false; for (int j = 0; j < N; ++j) there |= out[e * N + i] == ev[e * N + j]; ASSERT(there); }
    // neighbours stay neighbours
    if (N == 4) { T lo = out[e * N], op = out[e * N + 2]; for (int i = 0; i < N; ++i) if (ev[e * N + i] == lo) ASSERT(ev[e * N + (i + 2) % 4] == op); }
  }
  obs("c", c); REACH("canon");
}
H(align_canon2) { align_canon<2, LO>(); }
H(align_canon3) { align_canon<3, LO>(); }
H(align_canon4) { align_canon<4, LO>(); }
H(align_canon3g) { align_canon<3, GO>(); }
// two tuples of the same entity get the same canonical list
template <int N> static void align_same() {
  Write<LO> ev(2 * N); for (int i = 0; i < N; ++i) { ev[i] = osym_i32("v", 0, INT32_MAX); for (int j = 0; j < i; ++j) { ASSUME(ev[i] != ev[j]); osym_concretize(ev[i] < ev[j]); } } LO tmp[N]; LO src[N]; for (int i = 0; i < N; ++i) src[i] = ev[i]; I8 c = anycode(N); applied<N>(c, src, tmp); for (int i = 0; i < N; ++i) ev[N + i] = tmp[i];
  Bytes cs = get_codes_to_canonical(N, LOs(ev)); LOs out = align_ev2v(N, LOs(ev), cs); for (int i = 0; i < N; ++i) ASSERT(out[i] == out[N + i]);
  // jumps: equal neighbours in sorted order are not separated
  Write<LO> perm(2); perm[0] = (LO)osym_choose("p", 0, 1); perm[1] = 1 - perm[0]; Bytes j = find_canonical_jumps(N, out, LOs(perm)); ASSERT(j[0] == 0 && j[1] == 1);
  Write<LO> o2 = deep_copy(out); int d = (int)osym_choose("d", 0, N - 1); LO nv = osym_i32("nv", 0, INT32_MAX); ASSUME(nv != out[d]); o2[d] = nv; Bytes j2 = find_canonical_jumps(N, LOs(o2), LOs(perm)); ASSERT(j2[0] == 1 && j2[1] == 1);
  REACH("same");
}
H(align_same2) { align_same<2>(); }
H(align_same3) { align_same<3>(); }
H(align_same4) { align_same<4>(); }
// ---- C10: element templates
static Omega_h_Family fam() { return osym_choose("family", 0, 1) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX; }
static int nv(Omega_h_Family f, int d) { return element_degree(f, d, 0); }
static unsigned mask(Omega_h_Family f, int ed, int bd, int wb) { unsigned m = 0; for (int i = 0; i < nv(f, bd); ++i) { int v = element_down_template(f, ed, bd, wb, i); ASSERT(0 <= v && v < nv(f, ed)); ASSERT(!(m >> v & 1)); m |= 1u << v; } return m; }
// cube vertex coordinates: 0 1 2 3 counter-clockwise around the bottom, then the top
static void hcoord(int v, int* x) { static int const X[8] = {0,1,1,0,0,1,1,0}, Y[8] = {0,0,1,1,0,0,1,1}; x[0] = X[v]; x[1] = Y[v]; x[2] = v / 4; }
H(tmpl_down) {
  Omega_h_Family f = fam(); int ed = (int)osym_choose("ed", 1, 3), bd = (int)osym_choose("bd", 0, ed - 1), n = element_degree(f, ed, bd); 
  int want = 0; { int C[4][4] = {{1,0,0,0},{1,1,0,0},{1,2,1,0},{1,3,3,1}}; if (f == OMEGA_H_SIMPLEX) { int B[5][5] = {{1},{1,1},{1,2,1},{1,3,3,1},{1,4,6,4,1}}; want = B[ed + 1][bd + 1]; } else want = C[ed][bd] << (ed - bd); } ASSERT(n == want); ASSERT(element_degree(f, ed, ed) == 1);
  unsigned seen[12]; for (int b = 0; b < n; ++b) { seen[b] = mask(f, ed, bd, b); for (int c = 0; c < b; ++c) ASSERT(seen[b] != seen[c]); }
  if (f == OMEGA_H_HYPERCUBE) for (int b = 0; b < n; ++b) { // a side of a cube fixes ed-bd coordinates
    int fixedc = 0; for (int k = 0; k < ed; ++k) { bool c0 = false, c1 = false; for (int i = 0; i < nv(f, bd); ++i) { int x[3]; hcoord(element_down_template(f, ed, bd, b, i), x); (x[k] ? c1 : c0) = true; } fixedc += !(c0 && c1); } ASSERT(fixedc == ed - bd);
    if (bd == 2) for (int i = 0; i < 4; ++i) { int x[3], y[3]; hcoord(element_down_template(f, ed, bd, b, i), x); hcoord(element_down_template(f, ed, bd, b, (i + 1) % 4), y); ASSERT(abs(x[0] - y[0]) + abs(x[1] - y[1]) + abs(x[2] - y[2]) == 1); } }
  for (int b = 0; b < n; ++b) osym_observe("m", seen[b]); REACH("down");
}
// the sides of a side are sides of the element, reached with the same vertices
H(tmpl_compose) {
  Omega_h_Family f = fam(); int ed = (int)osym_choose("ed", 2, 3), md = (int)osym_choose("md", 1, ed - 1), ld = (int)osym_choose("ld", 0, md - 1), m = (int)osym_choose("m", 0, element_degree(f, ed, md) - 1), l = (int)osym_choose("l", 0, element_degree(f, md, ld) - 1);
  int vs[4], n = nv(f, ld); for (int i = 0; i < n; ++i) vs[i] = element_down_template(f, ed, md, m, element_down_template(f, md, ld, l, i));
  unsigned s = 0; for (int i = 0; i < n; ++i) s |= 1u << vs[i]; int hits = 0; for (int k = 0; k < element_degree(f, ed, ld); ++k) if (mask(f, ed, ld, k) == s) ++hits; ASSERT(hits == 1); REACH("compose");
}
H(tmpl_up) {
  Omega_h_Family f = fam(); int ed = (int)osym_choose("ed", 2, 3), ld = (int)osym_choose("ld", 0, ed - 2), l = (int)osym_choose("l", 0, element_degree(f, ed, ld) - 1); int nup = ed - ld; unsigned low = mask(f, ed, ld, l), ups = 0; int prev = -1; (void)prev;
  for (int u = 0; u < nup; ++u) {
    TemplateUp t = element_up_template(f, ed, ld, l, u); ASSERT(0 <= t.up && t.up < element_degree(f, ed, ld + 1)); ASSERT(0 <= t.which_down && t.which_down < element_degree(f, ld + 1, ld)); ASSERT(!(ups >> t.up & 1)); ups |= 1u << t.up;
    unsigned s = 0; int n = nv(f, ld); int a[2], b[2]; for (int i = 0; i < n; ++i) { int v = element_down_template(f, ed, ld + 1, t.up, element_down_template(f, ld + 1, ld, t.which_down, i)); s |= 1u << v; if (i < 2) { a[i] = v; b[i] = element_down_template(f, ed, ld, l, i); } } ASSERT(s == low);
    if (ld == 0) ASSERT(!t.is_flipped); if (ld == 1) ASSERT(t.is_flipped ? (a[0] == b[1] && a[1] == b[0]) : (a[0] == b[0] && a[1] == b[1]));
  }
  // all of them: nothing else contains it
  for (int k = 0; k < element_degree(f, ed, ld + 1); ++k) ASSERT(((mask(f, ed, ld + 1, k) & low) == low) == (bool)(ups >> k & 1));
  TemplateUp t = element_up_template(f, ed, ld, l, nup); ASSERT(t.up == -1); REACH("up");
}
H(tmpl_opposite) {
  int ed = (int)osym_choose("ed", 1, 3), bd = (int)osym_choose("bd", 0, ed - 1), b = (int)osym_choose("b", 0, simplex_degree(ed, bd) - 1); int od = ed - bd - 1; int o = simplex_opposite_template(ed, bd, b);
  ASSERT(0 <= o && o < simplex_degree(ed, od)); unsigned m1 = mask(OMEGA_H_SIMPLEX, ed, bd, b), m2 = mask(OMEGA_H_SIMPLEX, ed, od, o); ASSERT((m1 & m2) == 0); ASSERT((m1 | m2) == (1u << (ed + 1)) - 1); ASSERT(simplex_opposite_template(ed, od, o) == b); REACH("opp");
}
// outward orientation of the sides: shared edges are traversed in opposite directions, and side normals point outward
H(tmpl_orient) {
  Omega_h_Family f = fam(); int n = element_degree(f, 3, 2), nvf = nv(f, 2); 
  int fwd[8][8] = {}; for (int s = 0; s < n; ++s) for (int i = 0; i < nvf; ++i) ++fwd[element_down_template(f, 3, 2, s, i)][element_down_template(f, 3, 2, s, (i + 1) % nvf)];
  for (int e = 0; e < element_degree(f, 3, 1); ++e) { int a = element_down_template(f, 3, 1, e, 0), b = element_down_template(f, 3, 1, e, 1); ASSERT(fwd[a][b] == 1 && fwd[b][a] == 1); }
  // signed volume by the divergence theorem (6V = sum over triangles of det) is positive
  int P[8][3]; for (int v = 0; v < nv(f, 3); ++v) { if (f == OMEGA_H_HYPERCUBE) hcoord(v, P[v]); else { P[v][0] = v == 1; P[v][1] = v == 2; P[v][2] = v == 3; } }
  int vol = 0; for (int s = 0; s < n; ++s) for (int i = 1; i + 1 < nvf; ++i) { int* a = P[element_down_template(f, 3, 2, s, 0)]; int* b = P[element_down_template(f, 3, 2, s, i)]; int* c = P[element_down_template(f, 3, 2, s, i + 1)]; vol += a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
  ASSERT(vol == (f == OMEGA_H_HYPERCUBE ? 6 : 1));
  // in 2D: edges go round once
  for (int e = 0; e < element_degree(f, 2, 1); ++e) { ASSERT(element_down_template(f, 2, 1, e, 0) == e); ASSERT(element_down_template(f, 2, 1, e, 1) == (e + 1) % nv(f, 2)); }
  REACH("orient");
}
// outside the tables: -1, never an index
H(tmpl_outside) {
  Omega_h_Family f = fam(); int ed = (int)osym_choose("ed", 1, 3), bd = (int)osym_choose("bd", 0, ed - 1); int b = osym_i32("b", 0, 20), v = osym_i32("v", 0, 20); int r = element_down_template(f, ed, bd, b, v);
  if (bd > 0) { if (b >= element_degree(f, ed, bd) || v >= nv(f, bd)) ASSERT(r == -1); else ASSERT(0 <= r && r < nv(f, ed)); } REACH("outside");
}
// the children of a split cube: right count, vertices where they should be, same orientation, they tile the parent
H(tmpl_split) {
  int pd = (int)osym_choose("pd", 1, 3), cd = (int)osym_choose("cd", 0, pd), nc = hypercube_split_degree(pd, cd); ASSERT(nc == hypercube_degree(pd, pd - cd));
  unsigned used = 0; long seen[12]; 
  for (int c = 0; c < nc; ++c) {
    int lo[3] = {9, 9, 9}, hi[3] = {-1, -1, -1}, X[8][3]; long id = 0;
    for (int v = 0; v < hypercube_degree(cd, 0); ++v) {
      SplitVertex s = hypercube_split_template(pd, cd, c, v); ASSERT(0 <= s.dim && s.dim <= pd); ASSERT(0 <= s.which_down && s.which_down < hypercube_degree(pd, s.dim));
      int m = hypercube_degree(s.dim, 0), x[3] = {0, 0, 0}; for (int i = 0; i < m; ++i) { int y[3]; hcoord(s.dim == pd ? i : hypercube_down_template(pd, s.dim, s.which_down, i), y); for (int k = 0; k < 3; ++k) x[k] += y[k]; } for (int k = 0; k < 3; ++k) { x[k] = 2 * x[k] / m; if (k >= pd) x[k] = 0; if (x[k] < lo[k]) lo[k] = x[k]; if (x[k] > hi[k]) hi[k] = x[k]; X[v][k] = x[k]; }
    }
    int ext = 0; for (int k = 0; k < pd; ++k) { ASSERT(hi[k] - lo[k] <= 1); ext += hi[k] - lo[k]; id = id * 9 + lo[k] * 3 + hi[k]; } ASSERT(ext == cd); seen[c] = id; for (int k = 0; k < c; ++k) ASSERT(seen[k] != id);
    // inside the parent: on the boundary only where its vertices are shared with the rest of the interior
    if (cd < pd) for (int k = 0; k < pd; ++k) ASSERT(!(lo[k] == hi[k] && lo[k] != 1));
    if (cd == pd) { for (int v = 0; v < hypercube_degree(cd, 0); ++v) { int y[3]; hcoord(v, y); for (int k = 0; k < pd; ++k) ASSERT(X[v][k] == lo[k] + y[k]); } int corner[3]; hcoord(c, corner); for (int k = 0; k < pd; ++k) ASSERT(lo[k] == corner[k]); }
    if (cd == 2 && pd == 3) for (int i = 0; i < 4; ++i) ASSERT(abs(X[i][0] - X[(i + 1) % 4][0]) + abs(X[i][1] - X[(i + 1) % 4][1]) + abs(X[i][2] - X[(i + 1) % 4][2]) == 1);
  }
  (void)used; REACH("split");
}
