#include "h_coarsen.cpp"
#include "h_swap.cpp"
#include "Omega_h_conserve.hpp"
// ---- C26: what happens to fields when edges are swapped or collapsed
namespace { struct Fields { std::vector<Real> lin, pw, den, mass, err; std::vector<I64> inh[4]; }; }
static void classes(Mesh& m, std::function<int(int, Ids const&)> dim_of, std::function<int(int, Ids const&)> id_of) { for (int d = 0; d <= m.dim(); ++d) { auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); Write<I8> cd(m.nents(d)); Write<ClassId> ci(m.nents(d)); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(ev[e * (d + 1) + j]); k = sorted(k); cd[e] = (I8)dim_of(d, k); ci[e] = id_of(d, k); } m.add_tag<I8>(d, "class_dim", 1, Read<I8>(cd)); m.add_tag<ClassId>(d, "class_id", 1, Read<ClassId>(ci)); } }
static Mesh from(Library& lib, int dim, std::vector<LO> ev, std::vector<Real> x) { Write<LO> w((LO)ev.size()); for (size_t i = 0; i < ev.size(); ++i) w[(LO)i] = ev[i]; Write<Real> c((LO)x.size()); for (size_t i = 0; i < x.size(); ++i) c[(LO)i] = x[i]; Mesh m(&lib); build_from_elems2verts(&m, OMEGA_H_SIMPLEX, dim, LOs(w), (LO)x.size() / dim); m.add_coords(Reals(c)); m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), 1.0)); return m; }
static void boundary_classes(Mesh& m, std::set<int> inner) { int D = m.dim(); auto sides = mark_exposed_sides(&m); std::set<Ids> out; for (int d = 0; d < D; ++d) { auto mk = d == D - 1 ? sides : mark_down(&m, D - 1, d, sides); auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); for (LO e = 0; e < m.nents(d); ++e) if (mk[e]) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(ev[e * (d + 1) + j]); out.insert(sorted(k)); } } (void)inner; classes(m, [&](int d, Ids const& k) { return out.count(k) ? std::min(d, D - 1) : D; }, [&](int d, Ids const& k) { return out.count(k) ? 100 * d + k[0] : 1; }); }
// 0: a quad's diagonal; 1: two quads; 2: three tets round an edge
static Mesh swappable(Library& lib, int which) {
  Mesh m = which == 0 ? from(lib, 2, {0, 1, 2, 2, 1, 3}, {0, 0, 4, 0, 0, 4, 4, 4}) : which == 1 ? from(lib, 2, {0, 1, 2, 2, 1, 3, 1, 4, 3, 3, 4, 5}, {0, 0, 4, 0, 0, 4, 4, 4, 8, 0, 8, 4}) : from(lib, 3, {0, 1, 2, 3, 0, 2, 4, 3, 0, 4, 1, 3}, {0, 0, -6, 4, 0, 0, -4, 4, 0, 0, 0, 6, -4, -4, 0}); boundary_classes(m, {}); return m;
}
// 0: a fan; 1: a fan cut by a bent model line through its centre; 2: four edges in a row
static Mesh collapsible(Library& lib, int which) {
  bent = which == 1; std::vector<LO> fan = {0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4}; if (which == 2) { Mesh m = from(lib, 1, {0, 1, 1, 2, 2, 3, 3, 4}, {0, 4, 8, 12, 16}); boundary_classes(m, {}); return m; }
  if (which == 0) { Mesh m = from(lib, 2, fan, {0, 0, 4, 0, 4, 4, 0, 4, 2, 2}); boundary_classes(m, {}); return m; }
  Mesh m = from(lib, 2, fan, {0, 0, 4, 0, 4, 4, 0, 4, 1, 3}); auto on = [](Ids const& k) { for (int v : k) if (v == 1 || v == 3) return false; return true; };
  classes(m, [&](int d, Ids const& k) { if (d == 2) return 2; if (d == 0) return k[0] == 4 ? 1 : 0; if (on(k)) return 1; return has(k, 4) ? 2 : 1; }, [&](int d, Ids const& k) { if (d == 0) return k[0] == 4 ? 77 : k[0]; if (d == 1 && on(k)) return 77; if (d == 1 && !has(k, 4)) return 10 + k[0] * 5 + k[1]; return has(k, 1) ? 1 : 2; }); return m;
}
static Fields attach(Mesh& m, AdaptOpts& opts) {
  Fields f; int D = m.dim(); int hot = param("HOT", 0) ? choose("hot", -1, m.nelems() * 2 - 1) : -2; auto& tm = opts.xfer_opts.type_map; auto real = [&](char const* n, int dim, int comps, std::vector<Real>& to, Omega_h_Transfer how) { LO c = m.nents(dim) * comps; Write<Real> w(c); for (LO i = 0; i < c; ++i) to.push_back(w[i] = hot < -1 ? osym_fint(n, -1000, 1000) : i == hot ? 3 : 0.5 * (i % 3)); m.add_tag<Real>(dim, n, comps, Reals(w)); tm[n] = how; };
  real("lin", VERT, 2, f.lin, OMEGA_H_LINEAR_INTERP); if (D > 1) real("pw", D, 2, f.pw, OMEGA_H_POINTWISE); real("den", D, 1, f.den, OMEGA_H_DENSITY); if (param("CONS", 1)) { real("mass", D, 2, f.mass, OMEGA_H_CONSERVE); opts.xfer_opts.integral_map["mass"] = "m"; setup_conservation_tags(&m, opts); }
  for (int d = 0; d <= D; ++d) { LO n = m.nents(d); Write<I64> w(n); for (LO i = 0; i < n; ++i) f.inh[d].push_back(w[i] = osym_i64("inh", INT64_MIN, INT64_MAX)); m.add_tag<I64>(d, "inh", 1, Read<I64>(w)); } tm["inh"] = OMEGA_H_INHERIT; return f;
}
static Real bary_min(Old const& o, Ids const& t, std::vector<Real> const& p) { std::vector<Real> x = o.x; Real whole = measure(o, x, t), lo = 1e9; int D = o.D; x.insert(x.end(), p.begin(), p.end()); for (int i = 0; i <= D; ++i) { Ids k = t; k[i] = (int)(o.x.size() / D); Old const& oo = o; Real b = measure(oo, x, k) / whole; lo = b < lo ? b : lo; } return lo; }
// cavity: old elements the new one may draw on; dom: for every new entity without an equal old one, where an inherited value comes from
static void check_fields(Old const& o, Mesh& m, Ids const& nm, Fields const& f, std::function<std::vector<int>(Ids const&)> cavity, std::vector<std::function<I64(int, Ids const&)>> doms) {
  std::vector<int> fits(doms.size(), 1);
  int D = o.D; auto lin = m.get_array<Real>(VERT, "lin"); ASSERT(lin.size() == m.nverts() * 2); for (LO v = 0; v < m.nverts(); ++v) for (int c = 0; c < 2; ++c) ASSERT(lin[v * 2 + c] == f.lin[nm[v] * 2 + c]);
  for (int d = 0; d <= D; ++d) { auto inh = m.get_array<I64>(d, "inh"); auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); ASSERT(inh.size() == m.nents(d)); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(nm[ev[e * (d + 1) + j]]); auto it = o.at[d].find(sorted(k)); if (it != o.at[d].end()) ASSERT(inh[e] == f.inh[d][it->second]); else for (size_t w = 0; w < doms.size(); ++w) fits[w] &= int(inh[e] == doms[w](d, sorted(k))); } } int one = 0; for (int w : fits) one |= w; ASSERT(one);
  auto ev = m.ask_verts_of(D); Reals pw; if (D > 1) pw = m.get_array<Real>(D, "pw"); auto den = m.get_array<Real>(D, "den"); bool cons = param("CONS", 1); Reals mass, err; if (cons) { mass = m.get_array<Real>(D, "mass"); err = m.get_array<Real>(D, "m_error"); ASSERT(err.size() == m.nelems() * 2 && mass.size() == m.nelems() * 2); } std::map<int, Real> was, is, mwas[2], mis[2]; auto ci = m.get_array<ClassId>(D, "class_id"); for (size_t t = 0; t < o.v[D].size(); ++t) { Real s = measure(o, o.x, o.v[D][t]); was[o.ci[D][t]] += s * f.den[t]; if (cons) for (int c = 0; c < 2; ++c) mwas[c][o.ci[D][t]] += s * f.mass[t * 2 + c]; }
  for (LO e = 0; e < m.nelems(); ++e) { Ids k; for (int j = 0; j <= D; ++j) k.push_back(nm[ev[e * (D + 1) + j]]); Real s = measure(o, o.x, k); is[ci[e]] += s * den[e]; if (cons) for (int c = 0; c < 2; ++c) mis[c][ci[e]] += s * mass[e * 2 + c] - err[e * 2 + c];
    auto it = o.at[D].find(sorted(k)); if (it != o.at[D].end()) { int t = it->second; ASSERT(den[e] == f.den[t]); if (D > 1) ASSERT(pw[e * 2] == f.pw[t * 2] && pw[e * 2 + 1] == f.pw[t * 2 + 1]); if (cons) for (int c = 0; c < 2; ++c) { ASSERT(mass[e * 2 + c] == f.mass[t * 2 + c]); ASSERT(err[e * 2 + c] == 0); } continue; }
    auto cav = cavity(k); ASSERT(!cav.empty()); Real lo = 1e300, hi = -1e300; for (int t : cav) if (o.ci[D][t] == ci[e]) { lo = f.den[t] < lo ? f.den[t] : lo; hi = f.den[t] > hi ? f.den[t] : hi; } { Real tol = bent ? 1e-9 : 0; ASSERT(int(den[e] >= lo - tol) & int(den[e] <= hi + tol)); }
    if (D > 1) { std::vector<Real> mid(D, 0); for (int v : k) for (int j = 0; j < D; ++j) mid[j] += o.x[v * D + j] / (D + 1); Real best = -1e9; for (int t : cav) best = std::max(best, bary_min(o, o.v[D][t], mid)); int ok = 0; for (int t : cav) if (bary_min(o, o.v[D][t], mid) > best - 1e-9) ok |= int(pw[e * 2] == f.pw[t * 2]) & int(pw[e * 2 + 1] == f.pw[t * 2 + 1]); ASSERT(ok); } }
  if (!bent) for (auto& t : was) ASSERT(is[t.first] == t.second); if (cons) for (int c = 0; c < 2; ++c) for (auto& t : mwas[c]) { if (!bent) ASSERT(mis[c][t.first] == t.second); else { Real df = mis[c][t.first] - t.second; ASSERT(df < 1e-9 && df > -1e-9); } }
}
H(xs_fields) {
  Library lib; Mesh m = swappable(lib, param("SHAPE", 0)); auto o = record(m); int D = o.D; bent = false; AdaptOpts opts(&m); opts.verbosity = SILENT; opts.nsliver_layers = 0; opts.min_quality_desired = 2; opts.max_length_allowed = 100; m.add_tag<Real>(D, "quality", 1, Reals(m.nelems(), 0x1p-8)); auto f = attach(m, opts); m.add_tag<I32>(D, "lost", 1, Read<I32>(m.nelems(), 3)); ASSERT(swap_edges(&m, opts)); std::vector<Real> q(o.v[D].size(), 0x1p-8); check_swapped(o, m, q, std::vector<int>(o.v[D].size(), 1), opts, true); Ids nm; for (int i = 0; i < o.nv; ++i) nm.push_back(i);
  std::set<Ids> now; { auto ev = m.ask_verts_of(EDGE); for (LO e = 0; e < m.nedges(); ++e) now.insert(sorted({ev[2 * e], ev[2 * e + 1]})); } std::vector<int> gone; for (size_t e = 0; e < o.v[1].size(); ++e) if (!now.count(sorted(o.v[1][e]))) gone.push_back((int)e);
  auto of = [&](Ids const& k) { for (int e : gone) { bool in = true; for (int v : k) { bool any = false; for (auto& t : o.v[D]) if (has(t, o.v[1][e][0]) && has(t, o.v[1][e][1])) any = any || has(t, v); in = in && any; } if (in) return e; } ASSERT(false); return -1; };
  check_fields(o, m, nm, f, [&](Ids const& k) { int e = of(k); std::vector<int> l; for (size_t t = 0; t < o.v[D].size(); ++t) if (has(o.v[D][t], o.v[1][e][0]) && has(o.v[D][t], o.v[1][e][1])) l.push_back((int)t); return l; }, {[&](int, Ids const& k) { return f.inh[1][of(k)]; }}); ASSERT(!m.has_tag(D, "lost")); REACH("swap fields");
}
H(xc_fields) {
  bent = false; Library lib; int box_ = param("BOX", 0); Mesh m = box_ ? box(lib) : collapsible(lib, param("SHAPE", 0)); auto o = record(m); int D = o.D; AdaptOpts opts(&m); opts.verbosity = SILENT; opts.min_length_desired = 0.5; opts.max_length_desired = 100; opts.min_quality_allowed = 0; opts.should_prevent_coarsen_flip = false; LO ne = m.nedges(); Write<Real> len(ne, 1.0); std::vector<int> mk(m.nverts(), 0); int pick = choose("short", 0, ne - 1); len[pick] = 0.1; for (int h = 0; h < 2; ++h) mk[o.v[1][pick][h]] = 1; if (param("TWO", 0)) { int p2 = choose("short", 0, ne - 1); len[p2] = 0.1; for (int h = 0; h < 2; ++h) mk[o.v[1][p2][h]] = 1; } m.add_tag<Real>(EDGE, "length", 1, Reals(len));
  auto f = attach(m, opts); m.add_tag<I32>(D, "lost", 1, Read<I32>(m.nelems(), 3)); bool did = coarsen_by_size(&m, opts); if (!did) return; opts.min_quality_allowed = 0; Ids nm; auto to = check_coarsened(o, m, mk, opts, nm);
  std::vector<std::map<int, int>> ways(1); for (auto& t : targets) { std::vector<std::map<int, int>> nx; for (auto& w : ways) for (int u : t.second) { nx.push_back(w); nx.back()[t.first] = u; } ways = nx; } std::vector<std::function<I64(int, Ids const&)>> doms; for (auto& w : ways) doms.push_back([&f, &o, w](int d, Ids const& k) { for (auto& p : w) { if (!has(k, p.second)) continue; Ids b = k; for (int& x : b) if (x == p.second) x = p.first; auto it = o.at[d].find(sorted(b)); if (it != o.at[d].end()) return f.inh[d][it->second]; } return (I64)0; });
  check_fields(o, m, nm, f, [&](Ids const& k) { std::vector<int> l; for (auto& p : to) { if (!has(k, p.second)) continue; Ids b = k; for (int& x : b) if (x == p.second) x = p.first; if (!o.at[D].count(sorted(b))) continue; for (size_t t = 0; t < o.v[D].size(); ++t) if (has(o.v[D][t], p.first)) l.push_back((int)t); } return l; }, doms); ASSERT(!m.has_tag(D, "lost")); REACH("coarsen fields");
}
