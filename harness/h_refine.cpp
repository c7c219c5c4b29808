#include "small.hpp"
#include "Omega_h_refine.hpp"
#include "Omega_h_adapt.hpp"
#include <algorithm>
// ---- C23/C26: splitting chosen edges of a small mesh
namespace {
using Ids = std::vector<int>;  // vertex names: old vertices, then ne edge midpoints
struct Old { int D, nv, ne; std::vector<Ids> v[4]; std::vector<Real> x; Real size; };
}
static Ids sorted(Ids a) { std::sort(a.begin(), a.end()); return a; }
static Old record(Mesh& m) { Old o; o.D = m.dim(); o.nv = m.nverts(); o.ne = m.nedges(); auto c = m.coords(); for (LO i = 0; i < c.size(); ++i) o.x.push_back(c[i]); for (int d = 0; d <= o.D; ++d) { auto ev = d ? m.ask_verts_of(d) : LOs(o.nv, 0, 1); for (LO e = 0; e < m.nents(d); ++e) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(ev[e * (d + 1) + j]); o.v[d].push_back(k); } } auto s = m.ask_sizes(); o.size = 0; for (LO i = 0; i < s.size(); ++i) { ASSERT(s[i] > 0); o.size += s[i]; } return o; }
// which old vertex or edge midpoint every new vertex is (coordinates are concrete)
static Ids name_verts(Old const& o, Mesh& m) {
  Ids out; auto c = m.coords(); for (LO v = 0; v < m.nverts(); ++v) { int name = -1; auto at = [&](int a, int b) { bool same = true; for (int j = 0; j < o.D; ++j) same = same && c[v * o.D + j] == (o.x[a * o.D + j] + o.x[b * o.D + j]) / 2; return same; };
    for (int a = 0; a < o.nv; ++a) if (at(a, a)) name = a; if (name < 0) for (int e = 0; e < o.ne; ++e) if (at(o.v[1][e][0], o.v[1][e][1])) name = o.nv + e; ASSERT(name >= 0); ASSERT(std::find(out.begin(), out.end(), name) == out.end()); out.push_back(name); } return out;
}
static int find_key(std::vector<Ids> const& l, Ids const& k) { for (size_t i = 0; i < l.size(); ++i) if (sorted(l[i]) == k) return (int)i; return -1; }
// the lowest old entity holding all these vertices
static std::pair<int, int> home(Old const& o, Ids const& names) { Ids all; for (int n : names) { if (n < o.nv) all.push_back(n); else for (int a : o.v[1][n - o.nv]) all.push_back(a); } std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end()); int d = (int)all.size() - 1; ASSERT(d <= o.D); int i = find_key(o.v[d], all); ASSERT(i >= 0); return {d, i}; }
static int parity(Ids a) { int p = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) p ^= a[j] > a[i]; return p; }
struct Keys { std::vector<int> mid; };
// the refined mesh consists of exactly the pieces the split edges imply
static Ids check_refined(Old const& o, Mesh& m, std::vector<int> const& allowed) {
  meshck::adjacency(m, true); ASSERT(m.dim() == o.D); Ids nm = name_verts(o, m); std::vector<int> split(o.ne, 0); for (int n : nm) if (n >= o.nv) { split[n - o.nv] = 1; ASSERT(allowed[n - o.nv]); } for (int a = 0; a < o.nv; ++a) ASSERT(std::find(nm.begin(), nm.end(), a) != nm.end());
  for (int d = 1; d <= o.D; ++d) { std::vector<Ids> want; std::vector<int> wpar; for (auto& k : o.v[d]) { int s = -1; for (size_t a = 0; a < k.size(); ++a) for (size_t b = 0; b < a; ++b) { int e = find_key(o.v[1], sorted({k[a], k[b]})); if (split[e]) { ASSERT(s < 0); s = e; } } if (s < 0) { want.push_back(sorted(k)); wpar.push_back(parity(k)); continue; } for (int h = 0; h < 2; ++h) { Ids c = k; for (int& x : c) if (x == o.v[1][s][h]) x = o.nv + s; want.push_back(sorted(c)); wpar.push_back(parity(c)); } }
    // cuts: a split simplex one dimension up leaves a new simplex between its halves
    if (d < o.D) for (auto& k : o.v[d + 1]) { int s = -1; for (size_t a = 0; a < k.size(); ++a) for (size_t b = 0; b < a; ++b) { int e = find_key(o.v[1], sorted({k[a], k[b]})); if (split[e]) s = e; } if (s < 0) continue; Ids c; for (int x : k) if (x != o.v[1][s][0] && x != o.v[1][s][1]) c.push_back(x); c.push_back(o.nv + s); want.push_back(sorted(c)); wpar.push_back(-1); }
    ASSERT(m.nents(d) == (LO)want.size()); auto ev = m.ask_verts_of(d); std::vector<int> used(want.size(), 0); for (LO e = 0; e < m.nents(d); ++e) { Ids c; for (int j = 0; j <= d; ++j) c.push_back(nm[ev[e * (d + 1) + j]]); int hit = -1; for (size_t i = 0; i < want.size(); ++i) if (!used[i] && want[i] == sorted(c)) hit = (int)i; ASSERT(hit >= 0); used[hit] = 1; if (d == o.D) ASSERT(wpar[hit] == parity(c)); } }
  Real total = 0; auto s = measure_elements_real(&m); for (LO i = 0; i < s.size(); ++i) { ASSERT(s[i] > 0); total += s[i]; } Real df = total - o.size; ASSERT(df < 1e-12 * o.size && df > -1e-12 * o.size);
  for (int d = 0; d <= o.D; ++d) { auto g = m.globals(d); std::vector<int> seen(g.size(), 0); for (LO i = 0; i < g.size(); ++i) { ASSERT(g[i] >= 0 && g[i] < g.size()); ASSERT(!seen[g[i]]); seen[g[i]] = 1; } }
  return nm;
}
static Mesh start(Library& lib, int which, std::vector<int>& mark) { Mesh m = smallmesh::make(lib, which); m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), 1.0)); Write<Real> len(m.nedges()); mark.clear(); for (LO e = 0; e < m.nedges(); ++e) { mark.push_back((int)osym_choose("mark", 0, 1)); len[e] = mark[e]; } m.add_tag<Real>(EDGE, "length", 1, Reals(len)); return m; }
static AdaptOpts options(Mesh& m) { AdaptOpts o(&m); o.verbosity = SILENT; o.max_length_desired = 0.5; o.min_quality_allowed = 0.0; return o; }
static int shape() { return param("SHAPE", 0); }
H(ref_marks) {
  Library lib; std::vector<int> mark; Mesh m = start(lib, shape(), mark); auto old = record(m); int D = old.D; bool any = false; for (int x : mark) any = any || x;
  std::vector<I32> id[4]; std::vector<I8> dm[4]; for (int d = 0; d <= D; ++d) { LO n = m.nents(d); Write<I32> a(n); Write<I8> b(n); for (LO i = 0; i < n; ++i) { id[d].push_back(a[i] = osym_i32("id", INT32_MIN, INT32_MAX)); dm[d].push_back(b[i] = (I8)osym_i32("dim", 0, 3)); } m.add_tag<ClassId>(d, "class_id", 1, Read<ClassId>(a)); m.add_tag<I8>(d, "class_dim", 1, Read<I8>(b)); }
  auto opts = options(m); bool did = refine_by_size(&m, opts); ASSERT(did == any); auto nm = check_refined(old, m, mark); if (did) ASSERT(m.nverts() > old.nv); else ASSERT(m.nverts() == old.nv);
  for (int d = 0; d <= D; ++d) { auto a = m.get_array<ClassId>(d, "class_id"); auto b = m.get_array<I8>(d, "class_dim"); auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); for (LO i = 0; i < m.nents(d); ++i) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(nm[ev[i * (d + 1) + j]]); auto h = home(old, k); ASSERT(a[i] == id[h.first][h.second]); ASSERT(b[i] == dm[h.first][h.second]); } }
  for (int d = 0; d <= D; ++d) ASSERT(!m.has_tag(d, "key") && !m.has_tag(d, "candidate")); REACH("refined");
}
H(ref_fields) {
  Library lib; std::vector<int> mark; Mesh m = start(lib, shape(), mark); auto old = record(m); int D = old.D; auto opts = options(m); auto& tm = opts.xfer_opts.type_map;
  // nodal: two components, linear; every dimension: inherited; elements: pointwise and density
  std::vector<Real> lin; Write<Real> wl(old.nv * 2); for (int i = 0; i < old.nv * 2; ++i) { lin.push_back(wl[i] = osym_fint("lin", -1000, 1000) * 2); } m.add_tag<Real>(VERT, "lin", 2, Reals(wl)); tm["lin"] = OMEGA_H_LINEAR_INTERP;
  std::vector<I64> inh[4]; for (int d = 0; d <= D; ++d) { LO n = m.nents(d) * 2; Write<I64> w(n); for (LO i = 0; i < n; ++i) inh[d].push_back(w[i] = osym_i64("inh", INT64_MIN, INT64_MAX)); m.add_tag<I64>(d, "inh", 2, Read<I64>(w)); } tm["inh"] = OMEGA_H_INHERIT;
  std::vector<Real> el[2]; for (int k = 0; k < 2; ++k) { Write<Real> w(m.nelems()); for (LO i = 0; i < m.nelems(); ++i) el[k].push_back(w[i] = osym_fint("el", -1000, 1000)); m.add_tag<Real>(D, k ? "den" : "pw", 1, Reals(w)); } tm["pw"] = OMEGA_H_POINTWISE; tm["den"] = OMEGA_H_DENSITY;
  m.add_tag<I32>(VERT, "lost", 1, Read<I32>(old.nv, 3)); bool sizes = osym_choose("cached", 0, 1); if (sizes) { m.ask_sizes(); m.ask_qualities(); }
  bool did = refine_by_size(&m, opts); auto nm = check_refined(old, m, mark);
  auto l = m.get_array<Real>(VERT, "lin"); ASSERT(l.size() == m.nverts() * 2); for (LO v = 0; v < m.nverts(); ++v) for (int c = 0; c < 2; ++c) { Real want; if (nm[v] < old.nv) want = lin[nm[v] * 2 + c]; else { auto& e = old.v[1][nm[v] - old.nv]; want = (lin[e[0] * 2 + c] + lin[e[1] * 2 + c]) / 2; } ASSERT(l[v * 2 + c] == want); }
  for (int d = 0; d <= D; ++d) { auto a = m.get_array<I64>(d, "inh"); ASSERT(a.size() == m.nents(d) * 2); auto ev = d ? m.ask_verts_of(d) : LOs(m.nverts(), 0, 1); for (LO i = 0; i < m.nents(d); ++i) { Ids k; for (int j = 0; j <= d; ++j) k.push_back(nm[ev[i * (d + 1) + j]]); auto h = home(old, k); for (int c = 0; c < 2; ++c) ASSERT(a[i * 2 + c] == inh[h.first][h.second * 2 + c]); if (d == D) { ASSERT(m.get_array<Real>(D, "pw")[i] == el[0][h.second]); ASSERT(m.get_array<Real>(D, "den")[i] == el[1][h.second]); } } }
  if (did) ASSERT(!m.has_tag(VERT, "lost"));
  if (did) { auto a = m.ask_lengths(), b = measure_edges_metric(&m); auto ev = m.ask_verts_of(EDGE); for (LO i = 0; i < m.nedges(); ++i) { int x = nm[ev[2 * i]], y = nm[ev[2 * i + 1]]; int e = x < old.nv && y < old.nv ? find_key(old.v[1], sorted({x, y})) : -1; if (e >= 0) ASSERT(a[i] == (Real)mark[e]); else ASSERT(a[i] == b[i]); } }
  auto s = m.ask_sizes(), s2 = measure_elements_real(&m), q = m.ask_qualities(), q2 = measure_qualities(&m); for (LO i = 0; i < m.nelems(); ++i) { ASSERT(s[i] == s2[i]); ASSERT(q[i] == q2[i]); } REACH("fields");
}
