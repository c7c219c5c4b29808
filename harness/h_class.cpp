#include "meshck.hpp"
#include "Omega_h_class.hpp"
#include "Omega_h_mark.hpp"
#include "Omega_h_box.hpp"
// ---- C31: classification
static Mesh small(Library& lib, int which) {
  static LO const T[] = {0, 1, 2, 2, 1, 3}, FAN[] = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}, TT[] = {0, 1, 2, 3, 1, 2, 3, 4}, Q[] = {0, 1, 2, 3, 1, 4, 5, 2}, L[] = {0, 1, 1, 2, 2, 3}, RING[] = {0, 1, 2, 3, 0, 2, 4, 3, 0, 4, 1, 3};
  struct { LO const* v; int n, dim, nv; Omega_h_Family f; } k[] = {{T, 6, 2, 4, OMEGA_H_SIMPLEX}, {FAN, 12, 2, 5, OMEGA_H_SIMPLEX}, {TT, 8, 3, 5, OMEGA_H_SIMPLEX}, {Q, 8, 2, 6, OMEGA_H_HYPERCUBE}, {L, 6, 1, 4, OMEGA_H_SIMPLEX}, {RING, 12, 3, 5, OMEGA_H_SIMPLEX}};
  auto& c = k[which]; Write<LO> ev(c.n); for (int i = 0; i < c.n; ++i) ev[i] = c.v[i]; Mesh m(&lib); build_from_elems2verts(&m, c.f, c.dim, LOs(ev), c.nv); return m;
}
static Mesh anymesh(Library& lib) { int lo = param("LO", 0), hi = param("HI", 5); return small(lib, (int)osym_choose("mesh", lo, hi)); }
H(class_exposure) {
  Library lib; Mesh m = anymesh(lib); int D = m.dim(), ns = element_degree(m.family(), D, D - 1); auto es = m.ask_down(D, D - 1).ab2b; auto ex = mark_exposed_sides(&m); ASSERT(ex.size() == m.nents(D - 1)); std::vector<int> c(ex.size(), 0); for (LO i = 0; i < es.size(); ++i) ++c[es[i]]; for (LO i = 0; i < ex.size(); ++i) ASSERT(ex[i] == (c[i] == 1)); (void)ns;
  auto mk = anys<I8>("e", m.nents(D - 1)); for (LO i = 0; i < mk.size(); ++i) ASSUME(mk[i] == 0 || mk[i] == 1); classify_elements(&m); classify_sides_by_exposure(&m, Read<I8>(mk)); auto cd = m.get_array<I8>(D - 1, "class_dim"), ce = m.get_array<I8>(D, "class_dim"); for (LO i = 0; i < cd.size(); ++i) ASSERT(cd[i] == D - mk[i]); for (LO i = 0; i < ce.size(); ++i) ASSERT(ce[i] == D);
  if (D > 1) { auto a = anys<I8>("a", m.nents(D - 2)), b = anys<I8>("b", m.nents(D - 2)); for (LO i = 0; i < a.size(); ++i) { ASSUME(a[i] == 0 || a[i] == 1); ASSUME(b[i] == 0 || b[i] == 1); ASSUME(a[i] || !b[i]); } classify_hinges_by_sharpness(&m, Read<I8>(a), Read<I8>(b)); auto h = m.get_array<I8>(D - 2, "class_dim"); for (LO i = 0; i < h.size(); ++i) ASSERT(h[i] == (a[i] ? b[i] ? D - 2 : D - 1 : D)); }
  REACH("exposure");
}
// what the classification of the entities one dimension up says about an entity
static void implied(int e, std::vector<std::pair<int, LO>> const& up, int& dim, LO& id) {
  int m = 9, n = 0; for (auto& u : up) if (u.first < m) m = u.first; bool same = true; LO first = 0; for (auto& u : up) if (u.first == m) { if (!n) first = u.second; else if (u.second != first) same = false; ++n; }
  if (same && (m == e + 1 ? n == 2 : n >= 2)) { dim = m; id = first; } else { dim = e; id = -1; }
}
// projecting arbitrary classifications (dimension and id) of the next higher entities
static void project(int which, int e) {
  Library lib; Mesh m = small(lib, which); int D = m.dim(); LO nh = m.nents(e + 1), nl = m.nents(e); auto hd = anys<I8>("hd", nh); auto hi = anys<ClassId>("hi", nh); for (LO i = 0; i < nh; ++i) { ASSUME(hd[i] >= e + 1 && hd[i] <= D); if (hd[i] < D) osym_note("low", hd[i]); ASSUME(hi[i] >= 0); }
  m.add_tag<I8>(e + 1, "class_dim", 1, Read<I8>(hd)); m.add_tag<ClassId>(e + 1, "class_id", 1, Read<ClassId>(hi));
  Write<I8> cd(nl, (I8)D); Write<ClassId> ci(nl, -1); int pre = param("PRE", 0); LO at = 0; if (pre) { at = nl - 1; cd[at] = (I8)e; ci[at] = osym_i32("id", 0, 1000); } ClassId keepid = ci[at];
  project_classification(&m, e, cd, ci, false);
  auto up = m.ask_up(e, e + 1); for (LO l = 0; l < nl; ++l) { if (pre && l == at) { ASSERT(cd[l] == e && ci[l] == keepid); continue; } std::vector<std::pair<int, LO>> u; for (LO k = up.a2ab[l]; k < up.a2ab[l + 1]; ++k) u.push_back({hd[up.ab2b[k]], hi[up.ab2b[k]]}); int d; LO id; implied(e, u, d, id); ASSERT(cd[l] == d); ASSERT(ci[l] == id); }
  REACH("project");
}
H(class_project_verts2) { project(param("MESH", 0), 0); }
H(class_project_edges2) { project(1, 1); }
H(class_project_faces3) { project(2, 2); }
H(class_project_edges3) { project(2, 1); }
H(class_project_verts1) { project(4, 0); }
// from elements with ids and sides with ids alone, everything below follows; sides between elements of different ids are model sides
H(class_finalize) {
  Library lib; Mesh m = small(lib, (int)param("MESH", 0)); int D = m.dim(); LO n[4]; for (int d = 0; d <= D; ++d) n[d] = m.nents(d); auto fi = anys<ClassId>("f", n[D]); for (LO i = 0; i < n[D]; ++i) ASSUME(fi[i] >= 0); m.add_tag<I8>(D, "class_dim", 1, Read<I8>(n[D], (I8)D)); m.add_tag<ClassId>(D, "class_id", 1, Read<ClassId>(fi));
  std::vector<int> cd[4]; std::vector<LO> ci[4]; for (LO i = 0; i < n[D]; ++i) { cd[D].push_back(D); ci[D].push_back(fi[i]); }
  bool sides = osym_choose("sides", 0, 1); auto sup = m.ask_up(D - 1, D); std::vector<LO> given(n[D - 1], -1);
  if (sides) { Write<I8> d(n[D - 1]); Write<ClassId> id(n[D - 1]); for (LO s = 0; s < n[D - 1]; ++s) { LO k = sup.a2ab[s]; bool mod = sup.a2ab[s + 1] - k == 1 || fi[sup.ab2b[k]] != fi[sup.ab2b[k + 1]]; mod = osym_concretize(mod); LO v = osym_i32("s", 0, 9); if (mod) given[s] = v; d[s] = (I8)(mod ? D - 1 : D); id[s] = mod ? v : -1; } m.add_tag<I8>(D - 1, "class_dim", 1, Read<I8>(d)); m.add_tag<ClassId>(D - 1, "class_id", 1, Read<ClassId>(id)); }
  finalize_classification(&m);
  for (int e = D - 1; e >= 0; --e) { auto up = m.ask_up(e, e + 1); cd[e].resize(n[e]); ci[e].resize(n[e]); for (LO l = 0; l < n[e]; ++l) { if (e == D - 1 && given[l] >= 0) { cd[e][l] = D - 1; ci[e][l] = given[l]; continue; } std::vector<std::pair<int, LO>> u; for (LO k = up.a2ab[l]; k < up.a2ab[l + 1]; ++k) u.push_back({cd[e + 1][up.ab2b[k]], ci[e + 1][up.ab2b[k]]}); implied(e, u, cd[e][l], ci[e][l]); } }
  for (int e = 0; e <= D; ++e) { auto a = m.get_array<I8>(e, "class_dim"); auto b = m.get_array<ClassId>(e, "class_id"); for (LO l = 0; l < n[e]; ++l) { ASSERT(a[l] == cd[e][l]); ASSERT(b[l] == ci[e][l]); ASSERT(a[l] >= e); if (e < D) { auto up = m.ask_up(e, e + 1); auto h = m.get_array<I8>(e + 1, "class_dim"); for (LO k = up.a2ab[l]; k < up.a2ab[l + 1]; ++k) ASSERT(a[l] <= h[up.ab2b[k]]); } } }
  REACH("finalize");
}
// without ids, none appear
H(class_noids) { Library lib; Mesh m = anymesh(lib); int D = m.dim(); classify_elements(&m); finalize_classification(&m); auto ex = mark_exposed_sides(&m); auto cd = m.get_array<I8>(D - 1, "class_dim"); for (LO i = 0; i < cd.size(); ++i) ASSERT(cd[i] == D - ex[i]); for (int d = 0; d <= D; ++d) ASSERT(!m.has_tag(d, "class_id")); REACH("noids"); }
// naming some sides (in any order and orientation) classifies those sides and nothing else
template <int D> static void equal_order(int which) {
  Library lib; Mesh m = small(lib, which); LO n = m.nents(D - 1); auto ev = m.ask_verts_of(D - 1); int k = param("K", 2); Write<LO> v(k * D); Write<ClassId> id(k); std::vector<LO> pick; for (int i = 0; i < k; ++i) { LO s = (LO)osym_concretize(osym_i32("s", 0, n - 1)); for (LO p : pick) ASSUME(p != s); pick.push_back(s); int r = (int)osym_concretize(osym_i32("r", 0, D - 1)); bool fl = osym_concretize(osym_i32("f", 0, D == 3)); for (int j = 0; j < D; ++j) v[i * D + j] = ev[s * D + ((fl ? D - j : j) + r) % D]; id[i] = osym_i32("id", 0, INT32_MAX); }
  classify_equal_order(&m, D - 1, LOs(v), Read<ClassId>(id)); auto a = m.get_array<I8>(D - 1, "class_dim"); auto b = m.get_array<ClassId>(D - 1, "class_id"); for (LO s = 0; s < n; ++s) { int at = -1; for (int i = 0; i < k; ++i) if (pick[i] == s) at = i; ASSERT(a[s] == (at < 0 ? D : D - 1)); ASSERT(b[s] == (at < 0 ? -1 : id[at])); } REACH("equal");
}
H(class_equal2) { equal_order<2>(1); }
H(class_equal3) { equal_order<3>(2); }
// marks: by class, closures of classes and of named sets, and up and down the mesh
H(class_marks) {
  Library lib; Mesh m = small(lib, (int)param("MESH", 0)); int D = m.dim(); int e = (int)osym_choose("e", 0, D), c = (int)osym_choose("c", std::max(e, param("C", 0)), D); LO n = m.nents(c), ne = m.nents(e); auto cd = anys<I8>("cd", n); auto ci = anys<ClassId>("ci", n); for (LO i = 0; i < n; ++i) { ASSUME(cd[i] >= 0 && cd[i] <= D); } m.add_tag<I8>(c, "class_dim", 1, Read<I8>(cd)); m.add_tag<ClassId>(c, "class_id", 1, Read<ClassId>(ci));
  ClassId want = osym_i32("want", INT32_MIN, INT32_MAX), w2 = osym_i32("want2", INT32_MIN, INT32_MAX); int wd = (int)osym_i32("wd", 0, D);
  auto bc = mark_by_class(&m, c, wd, want), bd = mark_by_class_dim(&m, c, wd); for (LO i = 0; i < n; ++i) { ASSERT(bd[i] == (cd[i] == wd)); ASSERT(bc[i] == (cd[i] == wd && ci[i] == want)); }
  auto cl = mark_class_closure(&m, e, c, want); auto cs = mark_class_closures(&m, e, c, {want, w2}); auto cp = mark_class_closures(&m, e, std::vector<ClassPair>{{c, want}, {c, w2}}); Adj up; if (c > e) up = m.ask_up(e, c); 
  for (LO l = 0; l < ne; ++l) { int one = 0, two = 0; auto test = [&](LO h) { int d = cd[h] == c, a = ci[h] == want, b = ci[h] == w2; one |= d & a; two |= d & (a | b); }; if (c == e) test(l); else for (LO k = up.a2ab[l]; k < up.a2ab[l + 1]; ++k) test(up.ab2b[k]); ASSERT(cl[l] == one); ASSERT(cs[l] == two); ASSERT(cp[l] == two); }
  REACH("marks");
}
H(class_adj) {
  Library lib; Mesh m = anymesh(lib); int D = m.dim(); int l = (int)osym_choose("l", 0, D - 1), h = (int)osym_choose("h", l + 1, D); LO nl = m.nents(l), nh = m.nents(h); auto ml = anys<I8>("ml", nl), mh = anys<I8>("mh", nh); for (LO i = 0; i < nl; ++i) ASSUME(ml[i] == 0 || ml[i] == 1); for (LO i = 0; i < nh; ++i) ASSUME(mh[i] == 0 || mh[i] == 1);
  auto dn = mark_down(&m, h, l, Read<I8>(mh)), up = mark_up(&m, l, h, Read<I8>(ml)), ua = mark_up_all(&m, l, h, Read<I8>(ml)); int k = element_degree(m.family(), h, l); auto a = m.ask_down(h, l).ab2b; std::vector<int> any(nl, 0); for (LO i = 0; i < nh; ++i) { int one = 0, all = 1; for (int j = 0; j < k; ++j) { LO b = a[i * k + j]; any[b] |= mh[i]; one |= ml[b]; all &= ml[b]; } ASSERT(up[i] == one); ASSERT(ua[i] == all); } for (LO i = 0; i < nl; ++i) ASSERT(dn[i] == any[i]);
  auto t = mark_adj(&m, h, l, Read<I8>(mh)); for (LO i = 0; i < nl; ++i) ASSERT(t[i] == dn[i]); t = mark_adj(&m, l, h, Read<I8>(ml)); for (LO i = 0; i < nh; ++i) ASSERT(t[i] == up[i]); REACH("adj");
}
// boxes: the corners found by angles are the corners of the box
H(class_angles) {
  Library lib; int D = (int)osym_choose("D", 1, 3); LO n[3] = {0, 0, 0}; Real l[3] = {0, 0, 0}; for (int i = 0; i < D; ++i) { n[i] = (LO)osym_concretize(osym_i32("n", 1, D == 3 ? 1 : 2)); l[i] = n[i]; } Mesh m = build_box(lib.world(), OMEGA_H_SIMPLEX, l[0], l[1], l[2], n[0], n[1], n[2]); std::vector<LOs> k; Read<I8> want[4]; for (int d = 0; d <= D; ++d) { want[d] = m.get_array<I8>(d, "class_dim"); m.remove_tag(d, "class_dim"); m.remove_tag(d, "class_id"); }
  classify_by_angles(&m, 3.14159265358979323846 / 4); for (int d = D == 1 ? 0 : D == 2 ? 0 : 0; d <= D; ++d) { auto a = m.get_array<I8>(d, "class_dim"); for (LO i = 0; i < a.size(); ++i) ASSERT(a[i] == want[d][i]); } REACH("angles");
}
