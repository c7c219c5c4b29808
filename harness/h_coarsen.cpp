#include "cavity.hpp"
#include "Omega_h_coarsen.hpp"
#include "Omega_h_collapse.hpp"
#include "Omega_h_adapt.hpp"
// ---- C24/C26: edge collapse
// who may collapse onto whom, by classification alone, for any classification and any requests
H(col_class) {
  Library lib; Mesh m = smallmesh::make(lib, choose("mesh", param("LO", 0), param("HI", 2))); int D = m.dim(); LO nv = m.nverts(), ne = m.nedges(); Write<I8> vd(nv), ed(ne); for (LO i = 0; i < nv; ++i) vd[i] = (I8)osym_i32("vd", 0, D); for (LO i = 0; i < ne; ++i) ed[i] = (I8)osym_i32("ed", 1, D); m.add_tag<I8>(VERT, "class_dim", 1, Read<I8>(vd)); m.add_tag<I8>(EDGE, "class_dim", 1, Read<I8>(ed));
  LO nc = param("NC", 2); Write<LO> c2e(nc); Write<I8> code(nc); for (LO i = 0; i < nc; ++i) { c2e[i] = choose("cand", 0, ne - 1); if (i) ASSUME(c2e[i] != c2e[0]); code[i] = (I8)osym_i32("code", 0, 3); } auto out = check_collapse_class(&m, LOs(c2e), Read<I8>(code)); auto ev = m.ask_verts_of(EDGE); ASSERT(out.size() == nc);
  for (LO i = 0; i < nc; ++i) { LO e = c2e[i]; int a = vd[ev[2 * e]], b = vd[ev[2 * e + 1]], d = ed[e], c = code[i]; int same = int(a == b) & int(a == d), left = int(a == d), right = int(b == d); int want = c & (left | (right << 1)); int eq = int(a == b); int ok = (eq & same & int(out[i] == c)) | (eq & (1 - same) & int(out[i] == 0)) | ((1 - eq) & int(out[i] == want)); ASSERT(ok); } REACH("class");
}
H(col_exposure) {
  Library lib; Mesh m = smallmesh::make(lib, choose("mesh", param("LO", 0), param("HI", 2))); m.set_parting(OMEGA_H_GHOSTED); int D = m.dim(); std::vector<I8> cd[4]; for (int d = 1; d <= D; ++d) { LO n = m.nents(d); Write<I8> w(n); for (LO i = 0; i < n; ++i) cd[d].push_back(w[i] = (I8)osym_i32("cd", 0, D)); m.add_tag<I8>(d, "class_dim", 1, Read<I8>(w)); }
  LO ne = m.nedges(), nc = param("NC", 1); Write<LO> c2e(nc); Write<I8> code(nc); for (LO i = 0; i < nc; ++i) { c2e[i] = choose("cand", 0, ne - 1); if (i) ASSUME(c2e[i] != c2e[0]); code[i] = (I8)osym_i32("code", 0, 3); } auto out = check_collapse_exposure(&m, LOs(c2e), Read<I8>(code)); auto ev = m.ask_verts_of(EDGE);
  for (LO i = 0; i < nc; ++i) for (int col = 0; col < 2; ++col) { LO e = c2e[i]; LO onto = ev[2 * e + 1 - col], gone = ev[2 * e + col]; int ok = 1; for (int d = 2; d <= D; ++d) { auto cv = m.ask_verts_of(d), sv = m.ask_verts_of(d - 1); for (LO c = 0; c < m.nents(d); ++c) { std::set<LO> k(&cv[c * (d + 1)], &cv[c * (d + 1)] + d + 1); if (!k.count(onto) || !k.count(gone)) continue; k.erase(onto); for (LO s = 0; s < m.nents(d - 1); ++s) if (std::set<LO>(&sv[s * d], &sv[s * d] + d) == k) ok &= int(cd[d - 1][s] == cd[d][c]); } } ASSERT(((out[i] >> col) & 1) == (((code[i] >> col) & 1) & ok)); }
  for (LO i = 0; i < nc; ++i) ASSERT(out[i] >= 0 && out[i] <= 3); REACH("exposure");
}
// judges the new mesh and returns, for every removed vertex, the vertex it went to
static std::map<int, std::vector<int>> targets;  // every vertex each removed one may have gone to
static std::map<int, int> check_coarsened(Old const& o, Mesh& m, std::vector<int> const& marked, AdaptOpts const& opts, Ids& nm) {
  meshck::adjacency(m, true); nm.clear(); auto c = m.coords(); int D = o.D; for (LO v = 0; v < m.nverts(); ++v) { int name = -1; for (int a = 0; a < o.nv; ++a) { bool same = true; for (int j = 0; j < D; ++j) same = same && c[v * D + j] == o.x[a * D + j]; if (same) name = a; } ASSERT(name >= 0); ASSERT(std::find(nm.begin(), nm.end(), name) == nm.end()); nm.push_back(name); }
  std::map<Ids, int> now[4]; for (int d = 0; d <= D; ++d) { auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(nm[ev[e * (d + 1) + j]]); ASSERT(now[d].insert({sorted(k), e}).second); if (d == D) { Real s = measure(o, o.x, k); ASSERT(s > 0); } } }
  std::map<int, int> to; targets.clear(); std::set<int> gone; for (int a = 0; a < o.nv; ++a) if (!now[0].count({a})) gone.insert(a);
  for (int v : gone) { ASSERT(marked[v]); ASSERT(o.cd[0][v] > 0); for (size_t e = 0; e < o.v[1].size(); ++e) { auto& k = o.v[1][e]; if (k[0] != v && k[1] != v) continue; int u = k[0] == v ? k[1] : k[0]; if (gone.count(u)) continue; bool all = true; for (auto& el : o.v[D]) { if (std::find(el.begin(), el.end(), v) == el.end() || std::find(el.begin(), el.end(), u) != el.end()) continue; Ids n = el; for (int& y : n) if (y == v) y = u; all = all && now[D].count(sorted(n)); } if (all && o.cd[1][e] == o.cd[0][v]) { to.insert({v, u}); targets[v].push_back(u); } } ASSERT(to.count(v)); }
  // the whole new mesh is the image of the old one, each entity keeping the class of what it came from
  for (int d = 0; d <= D; ++d) { std::map<Ids, std::vector<int>> img; for (size_t e = 0; e < o.v[d].size(); ++e) { Ids k = o.v[d][e]; int moved = 0; for (int& y : k) if (to.count(y)) { y = to[y]; ++moved; } ASSERT(moved <= 1); if (std::set<int>(k.begin(), k.end()).size() < k.size()) continue; img[sorted(k)].push_back((int)e); if (d == D) { auto it = now[D].find(sorted(k)); ASSERT(it != now[D].end()); Ids n; auto ev = m.ask_verts_of(D); for (int j = 0; j <= D; ++j) n.push_back(nm[ev[it->second * (D + 1) + j]]); ASSERT(parity(n) == parity(k)); } } ASSERT(img.size() == now[d].size());
    auto cd = m.get_array<I8>(d, "class_dim"); auto ci = m.get_array<ClassId>(d, "class_id"); for (auto& im : img) { auto it = now[d].find(im.first); ASSERT(it != now[d].end()); int low = 9, id = -1; for (int e : im.second) if (o.cd[d][e] < low) { low = o.cd[d][e]; id = o.ci[d][e]; } ASSERT(cd[it->second] == low && ci[it->second] == id); } if (d == D) for (auto& im : img) ASSERT(im.second.size() == 1); }
  std::map<int, Real> total; Real all = 0; auto ci = m.get_array<ClassId>(D, "class_id"); auto ev = m.ask_verts_of(D); for (LO e = 0; e < m.nelems(); ++e) { Ids k; for (int j = 0; j <= D; ++j) k.push_back(nm[ev[e * (D + 1) + j]]); Real s = measure(o, o.x, k); total[ci[e]] += s; all += s; } for (auto& t : o.total) { if (bent) break; Real df = total[t.first] - t.second; ASSERT(df < 1e-9 && df > -1e-9); } Real df = all - o.size; ASSERT(df < 1e-9 && df > -1e-9); ASSERT(total.size() == o.total.size());
  if (!gone.empty()) { auto q = measure_qualities(&m); for (auto& im : now[D]) { if (o.at[D].count(im.first)) continue; ASSERT(q[im.second] >= opts.min_quality_allowed); } for (auto& e : now[1]) if (!o.at[1].count(e.first)) ASSERT(dist(o, e.first[0], e.first[1]) - 1e-9 <= opts.max_length_desired); }
  for (int d = 0; d <= D; ++d) { auto g = m.globals(d); std::vector<int> seen(g.size(), 0); for (LO i = 0; i < g.size(); ++i) { ASSERT(g[i] >= 0 && g[i] < g.size()); ASSERT(!seen[g[i]]); seen[g[i]] = 1; } ASSERT(!m.has_tag(d, "key") && !m.has_tag(d, "collapse_code")); } return to;
}
static std::vector<int> shorten(Mesh& m) { LO ne = m.nedges(); Write<Real> len(ne, 1.0); std::vector<int> mk(m.nverts(), 0); auto ev = m.ask_verts_of(EDGE); int k = param("SHORT", 2), all = choose("all", 0, 1); if (all) for (LO e = 0; e < ne; ++e) len[e] = 0.1; else { int last = -1; for (int i = 0; i < k; ++i) { int e = choose("short", 0, ne - 1); ASSUME(e > last); last = e; len[e] = 0.1; } } for (LO e = 0; e < ne; ++e) if (len[e] < 0.5) mk[ev[2 * e]] = mk[ev[2 * e + 1]] = 1; m.add_tag<Real>(EDGE, "length", 1, Reals(len)); return mk; }
static AdaptOpts options(Mesh& m) { AdaptOpts o(&m); o.verbosity = SILENT; o.min_length_desired = 0.5; o.max_length_desired = 100; o.min_quality_allowed = 0; if (param("SYMQ", 0)) { Real q = osym_fint("minq", 0, 1024, 0x1p-10); o.min_quality_allowed = q; } if (param("SYML", 0)) { Real l = osym_fint("maxl", 2, 24, 0.25); o.max_length_desired = l; } o.should_prevent_coarsen_flip = choose("flip", 0, param("FLIP", 0)); return o; }
H(col_box) {
  bent = false; Library lib; Mesh m = box(lib); decorate(m, choose("model", 0, param("MODEL", 2))); auto marked = shorten(m); auto old = record(m); auto opts = options(m); bool did = coarsen_by_size(&m, opts); Ids nm; auto to = check_coarsened(old, m, marked, opts, nm); ASSERT(did == !to.empty()); REACH("coarsened"); if (did) REACH("something");
}
