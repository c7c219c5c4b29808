#include "cavity.hpp"
#include "Omega_h_swap.hpp"
#include "Omega_h_swap2d.hpp"
#include "Omega_h_swap3d.hpp"
#include "Omega_h_swap3d_tables.hpp"
#include "Omega_h_swap3d_loop.hpp"
#include "Omega_h_swap3d_choice.hpp"
#include "Omega_h_adapt.hpp"
#include <cmath>
// ---- C25: edge swaps
static void triangulate(std::vector<int> poly, std::vector<Ids> cur, std::vector<std::vector<Ids>>& out) {  // all triangulations of a convex polygon
  if (poly.size() < 3) { out.push_back(cur); return; } int a = poly[0], b = poly.back();
  for (size_t i = 1; i + 1 < poly.size(); ++i) { std::vector<int> l(poly.begin(), poly.begin() + i + 1), r(poly.begin() + i, poly.end()); std::vector<std::vector<Ids>> L, R; triangulate(l, {}, L); triangulate(r, {}, R); for (auto& x : L) for (auto& y : R) { std::vector<Ids> t = cur; t.push_back({a, poly[i], b}); t.insert(t.end(), x.begin(), x.end()); t.insert(t.end(), y.begin(), y.end()); out.push_back(t); } }
}
// ---- the choice among all triangulations of a loop, for any qualities and lengths
namespace {
struct Quality { std::map<Ids, Real>* q; int n; Real measure(Few<LO, 4> v) const { Ids k = {v[0], v[1], v[2], v[3]}; ASSERT(k[3] == n || k[3] == n + 1); Ids t = {k[0], k[1], k[2]}; ASSERT(parity(t) == int(k[3] == n)); Ids key = sorted(t); key.push_back(k[3]); auto it = q->find(key); ASSERT(it != q->end()); return it->second; } };
struct Length { std::map<Ids, Real>* q; Real measure(Few<LO, 2> v) const { auto it = q->find(sorted({v[0], v[1]})); ASSERT(it != q->end()); return it->second; } };
}
H(swap_choose) {
  int n = param("N", 5), which = param("MODE", 0); swap3d::Loop loop; loop.size = n; loop.eev2v[0] = n; loop.eev2v[1] = n + 1; std::vector<int> poly; for (int i = 0; i < n; ++i) { loop.loop_verts2verts[i] = i; poly.push_back(i); } std::vector<std::vector<Ids>> all; triangulate(poly, {}, all); ASSERT((int)all.size() == swap3d::swap_mesh_counts[n]);
  // MODE 0: every tet quality free; 1: those of one triangulation; 2: the lengths, with fixed qualities
  std::map<Ids, Real> q; int target = which == 1 ? choose("target", param("TLO", 0), std::min(param("THI", 99), (int)all.size() - 1)) : -1; for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) { bool fr = which == 0; if (target >= 0) for (auto& t : all[target]) fr = fr || sorted(t) == Ids{a, b, c}; for (int s = 0; s < 2; ++s) q[{a, b, c, n + s}] = fr && (s == 0 || param("BOTH", 0)) ? osym_fint("q", -2, 4, 0.25) : which == 2 ? 0.125 + 0.0625 * ((a * 7 + b * 3 + c * 5 + s) % 13) : fr ? 1.0 : 0.25 * ((a + b * 2 + c) % 5 - 1); }
  std::map<Ids, Real> len; for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) { bool side = b == a + 1 || (a == 0 && b == n - 1); len[{a, b}] = side ? 9.0 : which == 2 ? osym_fint("len", 0, 2) : 1.0; }
  Real maxl = osym_fint("maxl", 0, 2); auto out = swap3d::choose(loop, Quality{&q, n}, Length{&len}, maxl);
  // the best admissible quality over all triangulations; the answer must reach it
  Real best = 0; int any = 0; int match = 0; auto counts = swap3d::swap_mesh_sizes[n]; std::set<std::vector<Ids>> table; for (auto& t : all) { Real mq = 1; int bad = 0; for (auto& tri : t) { Ids s = sorted(tri); for (int e = 0; e < 2; ++e) { Ids k = s; k.push_back(n + e); Real x = q[k]; mq = x < mq ? x : mq; } for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) { Ids e = {s[i], s[j]}; bool side = e[1] == e[0] + 1 || (e[0] == 0 && e[1] == n - 1); if (!side) { Real x = len[e]; bad |= int(x > maxl); } } } int good = (1 - bad) & int(mq > 0); any |= good; best = good & int(mq > best) ? mq : best;
    // is this the configuration the table gives for the answer?
    std::set<Ids> mine; for (auto& tri : t) mine.insert(sorted(tri)); int here = 0; for (int c = 0; c < swap3d::swap_mesh_counts[n]; ++c) { std::set<Ids> theirs; for (int k = 0; k < counts; ++k) { auto& tri = swap3d::swap_triangles[n][swap3d::swap_meshes[n][c * counts + k]]; theirs.insert(sorted({tri[0], tri[1], tri[2]})); } if (theirs == mine) { ++here; match |= int(out.mesh == c) & good & int(mq == out.quality); } } ASSERT(here == 1); }
  ASSERT(out.quality == best); ASSERT((int(out.mesh == -1) & (1 - any)) | (any & match)); REACH("choice"); }
// ---- a ring of tets round an edge
static Mesh ring(Library& lib, int n, bool jitter) {
  int nv = n + 2, k = choose("label", 0, 1) ? nv - 1 : 1, s = choose("shift", 0, param("SHIFTS", 2)), rot = choose("rot", 0, param("ROTS", 3)); auto id = [&](int i) { return (i * k + s) % nv; };  // 0..n-1 ring, n bottom, n+1 top
  static int const P[4][4] = {{0, 1, 2, 3}, {1, 2, 0, 3}, {2, 3, 0, 1}, {3, 1, 0, 2}}; std::vector<LO> ev; for (int i = 0; i < n; ++i) { LO t[4] = {id(n), id(i), id((i + 1) % n), id(n + 1)}; for (int j = 0; j < 4; ++j) ev.push_back(t[P[(rot + i * (rot > 1)) % 4][j]]); }
  Write<LO> w((LO)ev.size()); for (size_t i = 0; i < ev.size(); ++i) w[(LO)i] = ev[i]; Mesh m(&lib); build_from_elems2verts(&m, OMEGA_H_SIMPLEX, 3, LOs(w), nv); static Real const R[] = {1, 1.5, 0.75}; int far = jitter ? choose("far", 0, 1) : 0; Real h = jitter ? (choose("tall", 0, 1) ? 3.0 : 0.5) : 1.0; Write<Real> x(nv * 3); for (int i = 0; i < n; ++i) { Real r = R[far && i == 1 ? 1 : 0], a = 2 * PI * i / n; x[id(i) * 3] = r * std::cos(a); x[id(i) * 3 + 1] = r * std::sin(a); x[id(i) * 3 + 2] = 0; } for (int e = 0; e < 2; ++e) { x[id(n + e) * 3] = 0; x[id(n + e) * 3 + 1] = 0; x[id(n + e) * 3 + 2] = e ? h : -h; } m.add_coords(Reals(x));
  auto sides = mark_exposed_sides(&m); Read<I8> ex[4]; ex[2] = sides; ex[1] = mark_down(&m, 2, 1, sides); ex[0] = mark_down(&m, 2, 0, sides); ex[3] = Read<I8>(m.nelems(), 0); for (int d = 0; d <= 3; ++d) { Write<I8> cd(m.nents(d)); Write<ClassId> ci(m.nents(d)); for (LO i = 0; i < m.nents(d); ++i) { cd[i] = ex[d][i] ? (I8)std::min(d, 2) : (I8)3; ci[i] = ex[d][i] ? 5 : 42; } m.add_tag<I8>(d, "class_dim", 1, Read<I8>(cd)); m.add_tag<ClassId>(d, "class_id", 1, Read<ClassId>(ci)); }
  m.add_tag<Real>(VERT, "metric", 1, Reals(nv, 1.0)); return m;
}
static LO inner_edge(Mesh& m) { auto cd = m.get_array<I8>(EDGE, "class_dim"); LO k = -1; for (LO e = 0; e < m.nedges(); ++e) if (cd[e] == 3) { ASSERT(k < 0); k = e; } ASSERT(k >= 0); return k; }
// every configuration of the tables, as the products of one key
H(swap_tables) {
  Library lib; int n = choose("n", param("NLO", 3), param("NHI", 7)); Mesh m = ring(lib, n, false); auto o = record(m); LO key = inner_edge(m); int cfg = choose("cfg", 0, swap3d::swap_mesh_counts[n] - 1); LOs keys({key}); auto prods = swap3d_keys_to_prods(&m, keys); auto pv = swap3d_topology(&m, keys, Read<I8>(m.nedges(), (I8)cfg), prods); int a = o.v[1][key][0], b = o.v[1][key][1];
  std::set<Ids> want[4]; Real total = 0; LO nt = prods[3].last(); ASSERT(nt == 2 * (n - 2)); std::map<Ids, int> sides; for (LO t = 0; t < nt; ++t) { Ids k; for (int j = 0; j < 4; ++j) k.push_back(pv[3][t * 4 + j]); Real s = measure(o, o.x, k); ASSERT(s > 0); total += s; Ids u = sorted(k); ASSERT(want[3].insert(u).second); ASSERT((std::count(u.begin(), u.end(), a) + std::count(u.begin(), u.end(), b)) == 1); for (int skip = 0; skip < 4; ++skip) { Ids f; for (int j = 0; j < 4; ++j) if (j != skip) f.push_back(u[j]); ++sides[f]; if (!o.at[2].count(f)) want[2].insert(f); for (int j = 0; j < 3; ++j) { Ids e; for (int q = 0; q < 3; ++q) if (q != j) e.push_back(f[q]); if (!o.at[1].count(e)) want[1].insert(e); } } }
  Real df = total - o.size; ASSERT(df < 1e-9 && df > -1e-9); for (auto& f : sides) ASSERT(f.second == (o.at[2].count(f.first) ? 1 : 2)); int outer = 0; for (auto& f : o.at[2]) { bool both = std::count(f.first.begin(), f.first.end(), a) && std::count(f.first.begin(), f.first.end(), b); if (!both) { ++outer; ASSERT(sides.count(f.first)); } } ASSERT(outer == 2 * n);
  for (int d = 1; d <= 2; ++d) { std::set<Ids> got; LO c = prods[d].last(); for (LO i = 0; i < c; ++i) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(pv[d][i * (d + 1) + j]); ASSERT(got.insert(sorted(k)).second); } ASSERT(got == want[d]); ASSERT(c == (LO)want[d].size()); } REACH("tables");
}
static std::vector<int> sliver_marks(Old const& o, std::vector<Real> const& q, Real ceil, int layers) { int n = (int)o.v[o.D].size(); std::vector<int> mk(n); for (int i = 0; i < n; ++i) mk[i] = int(q[i] < ceil); for (int l = 0; l < layers; ++l) { std::vector<int> nx = mk; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int sh = 0; for (int v : o.v[o.D][i]) for (int w : o.v[o.D][j]) sh += v == w; if (sh == o.D) nx[i] |= mk[j]; } mk = nx; } return mk; }
static bool has(Ids const& k, int v) { return std::find(k.begin(), k.end(), v) != k.end(); }
static void check_swapped(Old const& o, Mesh& m, std::vector<Real> const& q, std::vector<int> const& slivers, AdaptOpts const& opts, bool did) {
  int D = o.D; meshck::adjacency(m, true); auto c = m.coords(); ASSERT(m.nverts() == o.nv); for (int i = 0; i < o.nv * D; ++i) ASSERT(c[i] == o.x[i]);
  std::map<Ids, int> now[4]; for (int d = 0; d <= D; ++d) { auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); auto cd = m.get_array<I8>(d, "class_dim"); auto ci = m.get_array<ClassId>(d, "class_id"); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(ev[e * (d + 1) + j]); ASSERT(now[d].insert({sorted(k), e}).second); if (d == D) ASSERT(measure(o, o.x, k) > 0); auto it = o.at[d].find(sorted(k)); if (it != o.at[d].end()) { ASSERT(cd[e] == o.cd[d][it->second] && ci[e] == o.ci[d][it->second]); ASSERT(parity(k) == parity(o.v[d][it->second])); } } }
  std::vector<int> gone; for (size_t e = 0; e < o.v[1].size(); ++e) if (!now[1].count(sorted(o.v[1][e]))) gone.push_back((int)e); ASSERT(did == !gone.empty()); Real s = 0; for (auto& e : now[D]) { Ids k = e.first; Real x = measure(o, o.x, k); s += x < 0 ? -x : x; } Real df = s - o.size; ASSERT(df < 1e-9 && df > -1e-9);
  std::vector<std::vector<int>> cav; for (int e : gone) { ASSERT(o.cd[1][e] == D); std::vector<int> l; int cand = 0; for (size_t t = 0; t < o.v[D].size(); ++t) if (has(o.v[D][t], o.v[1][e][0]) && has(o.v[D][t], o.v[1][e][1])) { l.push_back((int)t); cand |= slivers[t]; for (auto& p : cav) ASSERT(std::find(p.begin(), p.end(), (int)t) == p.end()); } ASSERT(cand); cav.push_back(l); }
  // whatever does not hold a swapped edge stays
  for (int d = 0; d <= D; ++d) for (auto& k : o.at[d]) { bool inside = false; for (int e : gone) inside = inside || (has(k.first, o.v[1][e][0]) && has(k.first, o.v[1][e][1])); ASSERT(now[d].count(k.first) == (inside ? 0u : 1u)); }
  auto nq = measure_qualities(&m); for (int d = 0; d <= D; ++d) for (auto& k : now[d]) { if (o.at[d].count(k.first)) continue; bool found = false; for (size_t g = 0; g < gone.size(); ++g) { int e = gone[g], a = o.v[1][e][0], b = o.v[1][e][1]; if (has(k.first, a) && has(k.first, b)) continue; bool in = true; for (int v : k.first) { bool any = false; for (int t : cav[g]) any = any || has(o.v[D][t], v); in = in && any; } if (!in || found) continue; found = true; ASSERT(m.get_array<I8>(d, "class_dim")[k.second] == D && m.get_array<ClassId>(d, "class_id")[k.second] == o.ci[1][e]); if (d == D) { Real mq = 1; for (int t : cav[g]) mq = q[t] < mq ? q[t] : mq; ASSERT(nq[k.second] > mq); } if (d == 1) ASSERT(dist(o, k.first[0], k.first[1]) - 1e-9 <= opts.max_length_allowed); } ASSERT(found); }
  for (int d = 0; d <= D; ++d) { auto g = m.globals(d); std::vector<int> seen(g.size(), 0); for (LO i = 0; i < g.size(); ++i) { ASSERT(g[i] >= 0 && g[i] < g.size()); ASSERT(!seen[g[i]]); seen[g[i]] = 1; } ASSERT(!m.has_tag(d, "key") && !m.has_tag(d, "candidate") && !m.has_tag(d, "config")); }
  if (D == 2 && !did) for (size_t e = 0; e < o.v[1].size(); ++e) { if (o.cd[1][e] != 2) continue; int a = o.v[1][e][0], b = o.v[1][e][1]; Ids op; int cand = 0; Real mq = 1; for (size_t t = 0; t < o.v[2].size(); ++t) if (has(o.v[2][t], a) && has(o.v[2][t], b)) { cand |= slivers[t]; mq = q[t] < mq ? q[t] : mq; int third = -1, prev = -1; for (int j = 0; j < 3; ++j) { int v = o.v[2][t][j]; if (v != a && v != b) { third = v; prev = o.v[2][t][(j + 1) % 3]; } } (void)prev; op.push_back(third); } ASSERT(op.size() == 2); auto qm = MetricElementQualities<2, 1>(&m); Real nqm = 1; for (int h = 0; h < 2; ++h) { Few<LO, 3> t; t[0] = h ? a : b; t[1] = op[0]; t[2] = op[1]; Ids k = {t[0], t[1], t[2]}; Real sz = measure(o, o.x, k); /* orient so that both are positive exactly when the swap is valid */ if (sz < 0) { std::swap(t[1], t[2]); } Real x = qm.measure(t); nqm = x < nqm ? x : nqm; } Real sa = measure(o, o.x, {a, op[0], op[1]}), sb = measure(o, o.x, {b, op[0], op[1]}); if (sa * sb >= 0) continue; Real L = dist(o, op[0], op[1]); int worse = int(nqm - 1e-9 <= mq), lng = int(L + 1e-9 > opts.max_length_allowed); ASSERT((1 - cand) | worse | lng); }
}
H(swap_mesh) {
  bent = false; Library lib; int n = param("RING", 0); Mesh m = n ? ring(lib, n, true) : box(lib); if (param("WARP", 0)) { auto c = m.coords(); Write<Real> x(c.size()); for (LO i = 0; i < c.size(); ++i) x[i] = c[i] + 0.125 * ((i / 3 * 5 + i % 3 * 2) % 5 - 2); m.set_coords(Reals(x)); } if (!n) decorate(m, choose("model", 0, param("MODEL", 2))); auto o = record(m); int D = o.D; AdaptOpts opts(&m); opts.verbosity = SILENT; opts.nsliver_layers = choose("layers", 0, param("LAYERS", 1)); opts.min_quality_allowed = 0; opts.min_quality_desired = param("SYMD", 0) ? osym_fint("mind", 0, 1024, 0x1p-10) : 2.0; opts.max_length_allowed = param("SYML", 1) ? osym_fint("maxl", 0, 40, 0.25) : 100;
  auto mq = measure_qualities(&m); Write<Real> w(m.nelems()); std::vector<Real> q; int f = param("FREE", 2); int base = choose("base", 0, param("BASE", 0)); for (LO i = 0; i < m.nelems(); ++i) { bool fr = ((i + base) % m.nelems()) < f; q.push_back(w[i] = fr ? osym_fint("q", 0, 1024, 0x1p-10) : param("REAL", 1) ? mq[i] : 0x1p-7); } m.add_tag<Real>(D, "quality", 1, Reals(w));
  auto slivers = sliver_marks(o, q, opts.min_quality_desired, opts.nsliver_layers); int any = 0; for (int s : slivers) any |= s; ASSUME(any); bool did = swap_edges(&m, opts); check_swapped(o, m, q, slivers, opts, did); REACH("judged"); if (did) REACH("swapped");
}
