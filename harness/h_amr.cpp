#include "small.hpp"
#include "Omega_h_amr.hpp"
#include "Omega_h_mark.hpp"
#include <map>
#include <algorithm>
#include <cmath>
// ---- C32: quad and octree refinement
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
typedef std::vector<int> Key; enum { U = 16 };  // the unit cell is U wide
struct Rec { int leaf, level, cd, ci, par_dim, which; Key parent; I64 a[2]; I8 b; Real r[2], w[2]; };
typedef std::map<Key, Rec> Snap;
static int D, ncell;
static Key point(Reals x, LO v) { Key k(3, 0); for (int c = 0; c < D; ++c) { double z = x[v * D + c] * U; k[c] = (int)z; ASSERT(double(k[c]) == z); } return k; }
static Key keyof(std::vector<Key> const& v) { Key lo = v[0], hi = v[0]; for (auto& p : v) for (int c = 0; c < 3; ++c) { lo[c] = std::min(lo[c], p[c]); hi[c] = std::max(hi[c], p[c]); } Key k = lo; for (int c = 0; c < 3; ++c) k.push_back(hi[c] - lo[c]); return k; }
static int size_of(Key const& k) { return std::max(k[3], std::max(k[4], k[5])); }
// the entities of the mesh by the box they fill; each box once, filled by its vertices in the standard order
static std::vector<Key> keys[4];
static void snapshot(Mesh& m, Snap s[4]) {
  auto x = m.coords();
  for (int d = 0; d <= D; ++d) { LO n = m.nents(d); int deg = d ? element_degree(OMEGA_H_HYPERCUBE, d, VERT) : 1; LOs ev; if (d) ev = m.ask_verts_of(d); keys[d].clear(); s[d].clear();
    for (LO i = 0; i < n; ++i) { std::vector<Key> p; for (int k = 0; k < deg; ++k) p.push_back(point(x, d ? ev[i * deg + k] : i)); Key k = keyof(p); int ext = 0; for (int c = 3; c < 6; ++c) ext += k[c] > 0; ASSERT(ext == d); int sz = size_of(k); for (int c = 3; c < 6; ++c) ASSERT(k[c] == 0 || k[c] == sz); for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < a; ++b) ASSERT(p[a] != p[b]);
      if (d == D) { static int const X[] = {0, 1, 1, 0, 0, 1, 1, 0}, Y[] = {0, 0, 1, 1, 0, 0, 1, 1}, Z[] = {0, 0, 0, 0, 1, 1, 1, 1}; for (int a = 0; a < deg; ++a) { ASSERT(p[a][0] == k[0] + X[a] * sz && p[a][1] == k[1] + Y[a] * sz); if (D == 3) ASSERT(p[a][2] == k[2] + Z[a] * sz); } }
      ASSERT(!s[d].count(k)); s[d][k]; keys[d].push_back(k); } }
  for (int d = 0; d <= D; ++d) { auto cd = m.get_array<I8>(d, "class_dim"); auto ci = m.get_array<LO>(d, "class_id"); bool tagged = m.has_tag(d, "ia"); Read<I64> ia; Bytes ib; Reals r; if (tagged) { ia = m.get_array<I64>(d, "ia"); ib = m.get_array<I8>(d, "ib"); r = m.get_array<Real>(d, "ir"); } auto par = m.ask_parents(d); auto lev = m.ask_levels(d), leaf = m.ask_leaves(d); ASSERT(par.parent_idx.size() == m.nents(d) && lev.size() == m.nents(d) && leaf.size() == m.nents(d)); Reals w; if (d == 0 && tagged) w = m.get_array<Real>(0, "w");
    for (LO i = 0; i < m.nents(d); ++i) { Rec& e = s[d][keys[d][i]]; e.leaf = leaf[i]; e.level = lev[i]; e.cd = cd[i]; e.ci = ci[i]; e.par_dim = -1; e.which = 0; if (tagged) { e.a[0] = ia[2 * i]; e.a[1] = ia[2 * i + 1]; e.b = ib[i]; e.r[0] = r[2 * i]; e.r[1] = r[2 * i + 1]; } if (w.exists()) { e.w[0] = w[2 * i]; e.w[1] = w[2 * i + 1]; } LO q = par.parent_idx[i]; if (q >= 0) { e.par_dim = amr::code_parent_dim(par.codes[i]); e.which = amr::code_which_child(par.codes[i]); ASSERT(e.par_dim >= std::max(d, 1) && e.par_dim <= D && q < m.nents(e.par_dim)); e.parent = keys[e.par_dim][q]; } } }
}
// family links: a child fills its place in the parent, children are listed in the order of their places
static void family(Mesh& m, Snap s[4]) {
  for (int d = 0; d <= D; ++d) for (auto& kv : s[d]) { auto& e = kv.second; auto& k = kv.first; if (e.par_dim < 0) { if (d) ASSERT(size_of(k) == U && e.level == 0); else ASSERT(k[0] % U == 0 && k[1] % U == 0 && k[2] % U == 0); continue; } auto& q = e.parent; Rec const& pr = s[e.par_dim][q]; ASSERT(!pr.leaf); ASSERT(e.level == pr.level + 1); int h = size_of(q); if (d) { ASSERT(2 * size_of(k) == h); } for (int c = 0; c < 3; ++c) { ASSERT(k[c] >= q[c] && k[c] + k[3 + c] <= q[c] + q[3 + c]); if (q[3 + c] && !k[3 + c]) ASSERT(2 * (k[c] - q[c]) == q[3 + c]); } }
  for (int pd = 1; pd <= D; ++pd) for (int d = 0; d <= pd; ++d) { auto ch = m.ask_children(pd, d); ASSERT(ch.a2ab.size() == m.nents(pd) + 1); int total = hypercube_split_degree(pd, d); for (LO i = 0; i < m.nents(pd); ++i) { int n = ch.a2ab[i + 1] - ch.a2ab[i]; Rec const& e = s[pd][keys[pd][i]]; ASSERT(n == (e.leaf ? 0 : total)); int k = 0; for (LO j = ch.a2ab[i]; j < ch.a2ab[i + 1]; ++j, ++k) { Rec const& c = s[d][keys[d][ch.ab2b[j]]]; ASSERT(c.par_dim == pd && c.parent == keys[pd][i]); ASSERT(c.which == k && amr::code_which_child(ch.codes[j]) == k && amr::code_parent_dim(ch.codes[j]) == pd); } } }
  // the place of a same-dimension child is the corner it touches
  for (int d = 1; d <= D; ++d) { auto ch = m.ask_children(d, d); auto ev = m.ask_verts_of(d); int deg = element_degree(OMEGA_H_HYPERCUBE, d, VERT); for (LO i = 0; i < m.nents(d); ++i) for (LO j = ch.a2ab[i], k = 0; j < ch.a2ab[i + 1]; ++j, ++k) ASSERT(ev[ch.ab2b[j] * deg + k] == ev[i * deg + k]); }
  // the leaves tile the domain
  long vol = 0; for (auto& kv : s[D]) if (kv.second.leaf) { long v = 1; for (int c = 0; c < D; ++c) v *= size_of(kv.first); vol += v; } long unit = 1; for (int c = 0; c < D; ++c) unit *= U; ASSERT(vol == unit * ncell);
  for (auto& a : s[D]) if (a.second.leaf) for (auto& b : s[D]) if (b.second.leaf && a.first < b.first) { bool apart = false; for (int c = 0; c < D; ++c) if (a.first[c] + size_of(a.first) <= b.first[c] || b.first[c] + size_of(b.first) <= a.first[c]) apart = true; ASSERT(apart); }
}
static void same_values(Rec const& a, Rec const& b, int& ok, bool vert) { ok &= int(a.a[0] == b.a[0]) & int(a.a[1] == b.a[1]) & int(a.b == b.b) & int(a.r[0] == b.r[0]) & int(a.r[1] == b.r[1]); if (vert) ok &= int(a.w[0] == b.w[0]) & int(a.w[1] == b.w[1]); }
static void one_level(Snap s[4]) { for (auto& a : s[D]) if (a.second.leaf) for (auto& b : s[D]) if (b.second.leaf) { int touch = 0, over = 0; for (int c = 0; c < D; ++c) { int lo = std::max(a.first[c], b.first[c]), hi = std::min(a.first[c] + size_of(a.first), b.first[c] + size_of(b.first)); if (hi == lo) ++touch; else if (hi > lo) ++over; } if (touch == 1 && over == D - 1) ASSERT(size_of(a.first) <= 2 * size_of(b.first)); } }
// what one round of refinement must have done
static void refined(Snap o[4], Snap n[4], std::vector<Key> const& marked, bool tagged) {
  int ok = 1; std::map<Key, int> mk; for (auto& k : marked) mk[k] = 1;
  std::map<Key, int> want; for (auto& kv : o[D]) { want[kv.first] = kv.second.leaf && !mk.count(kv.first); if (mk.count(kv.first)) { int h = size_of(kv.first) / 2; for (int c = 0; c < 1 << D; ++c) { Key k = kv.first; for (int a = 0; a < 3; ++a) if (k[3 + a]) { k[a] += ((c >> a) & 1) * h; k[3 + a] = h; } want[k] = 1; } } }
  ASSERT(want.size() == n[D].size()); for (auto& kv : want) { ASSERT(n[D].count(kv.first)); ASSERT(n[D][kv.first].leaf == kv.second); }
  for (int d = 0; d <= D; ++d) { for (auto& kv : o[d]) { ASSERT(n[d].count(kv.first)); Rec const &a = kv.second, &b = n[d][kv.first]; ASSERT(a.cd == b.cd && a.ci == b.ci && a.level == b.level && a.par_dim == b.par_dim && a.which == b.which && a.parent == b.parent); if (tagged) same_values(a, b, ok, d == 0); }
    for (auto& kv : n[d]) if (!o[d].count(kv.first)) { Rec const& b = kv.second; ASSERT(b.par_dim > 0); Rec const& p = n[b.par_dim][b.parent]; ASSERT(b.cd == p.cd && b.ci == p.ci); if (tagged) { ok &= int(b.a[0] == p.a[0]) & int(b.a[1] == p.a[1]) & int(b.b == p.b) & int(b.r[0] == p.r[0]) & int(b.r[1] == p.r[1]); if (d == 0) { Key q = b.parent; int cnt = 0; Real s[2] = {0, 0}; for (int c = 0; c < 8; ++c) { Key v(6, 0); bool skip = false; for (int a = 0; a < 3; ++a) { int bit = (c >> a) & 1; if (bit && !q[3 + a]) skip = true; v[a] = q[a] + bit * q[3 + a]; } if (skip) continue; ASSERT(o[0].count(v)); ++cnt; s[0] += o[0][v].w[0]; s[1] += o[0][v].w[1]; } ASSERT(cnt == 1 << b.par_dim); ok &= int(b.w[0] * cnt == s[0]) & int(b.w[1] * cnt == s[1]); } } } }
  ASSERT(ok);
}
static TransferOpts opts() { TransferOpts o; o.type_map["ia"] = OMEGA_H_INHERIT; o.type_map["ib"] = OMEGA_H_INHERIT; o.type_map["ir"] = OMEGA_H_INHERIT; o.type_map["w"] = OMEGA_H_LINEAR_INTERP; return o; }
static void tags(Mesh& m) { for (int d = 0; d <= D; ++d) { m.add_tag<I64>(d, "ia", 2, Read<I64>(anys<I64>("ia", 2 * m.nents(d)))); m.add_tag<I8>(d, "ib", 1, Read<I8>(anys<I8>("ib", m.nents(d)))); m.add_tag<Real>(d, "ir", 2, Reals(ranged<Real>("ir", 2 * m.nents(d), -4, 4))); } m.add_tag<Real>(0, "w", 2, Reals(ranged<Real>("w", 2 * m.nverts(), -8, 8))); }
static Mesh start(Library& lib, int shape) { static int const S[][3] = {{2, 1, 0}, {2, 2, 0}, {1, 1, 1}, {2, 1, 1}, {3, 1, 0}, {1, 1, 0}}; auto s = S[shape]; D = s[2] ? 3 : 2; ncell = s[0] * s[1] * (s[2] ? s[2] : 1); return build_box(lib.world(), OMEGA_H_HYPERCUBE, s[0], s[1], s[2], s[0], s[1], s[2]); }
static void checked(Mesh& m, Snap s[4]) { snapshot(m, s); family(m, s); }
// every marking of the leaves (or, with ONE, any one of them), any number of rounds
H(amr_refine) {
  Library lib; Mesh m = start(lib, param("SHAPE", 0)); bool tagged = param("TAGS", 0), enforce = param("ENFORCE", 0); if (tagged) tags(m); Snap a[4], b[4]; checked(m, a);
  for (int r = 0; r < param("ROUNDS", 1); ++r) { LO n = m.nelems(); Write<Byte> mk(n, 0); auto leaf = m.ask_leaves(D); std::vector<LO> L; for (LO e = 0; e < n; ++e) if (leaf[e]) L.push_back(e); if (param("ONE", 0)) mk[L[choose("one", 0, (int)L.size() - 1)]] = 1; else for (LO e : L) mk[e] = (Byte)choose("mark", 0, 1); if (param("NONLEAF", 0)) for (LO e = 0; e < n; ++e) if (!leaf[e]) mk[e] = 1;
    Bytes use(mk); std::vector<Key> marked; if (enforce) { use = amr::enforce_2to1_refine(&m, D - 1, use); ASSERT(use.size() == n); for (LO e : L) if (mk[e]) ASSERT(use[e]); for (LO e = 0; e < n; ++e) { ASSERT(use[e] == 0 || use[e] == 1); if (!leaf[e]) ASSERT(!use[e]); } } for (LO e : L) if (use[e]) marked.push_back(keys[D][e]);
    amr::refine(&m, use, opts()); checked(m, b); meshck::adjacency(m, false); refined(a, b, marked, tagged); if (enforce) one_level(b); for (int d = 0; d <= D; ++d) a[d] = b[d]; } REACH("refine"); }
// undoing refinement gives back the coarse leaves, and the mesh can be refined again
H(amr_derefine) {
  Library lib; Mesh m = start(lib, param("SHAPE", 0)); bool tagged = param("TAGS", 0); if (tagged) tags(m); Snap a[4], b[4], c[4]; checked(m, a); LO n = m.nelems(); Write<Byte> mk(n, 0); int any = 0; for (LO e = 0; e < n; ++e) { mk[e] = (Byte)choose("mark", 0, 1); any |= mk[e]; } if (!any) { osym_assume(0); return; } amr::refine(&m, mk, opts());
  if (param("TWICE", 0)) { auto leaf = m.ask_leaves(D); std::vector<LO> L; for (LO e = 0; e < m.nelems(); ++e) if (leaf[e]) L.push_back(e); Write<Byte> mk2(m.nelems(), 0); mk2[L[choose("one", 0, (int)L.size() - 1)]] = 1; Bytes use = amr::enforce_2to1_refine(&m, D - 1, mk2); amr::refine(&m, use, opts()); }
  checked(m, b); std::map<Key, int> gone; { auto leaf = m.ask_leaves(D); auto ch = m.ask_children(D, D); Write<Byte> dm(m.nelems(), 0); for (LO e = 0; e < m.nelems(); ++e) if (!leaf[e]) { bool all = true; for (LO j = ch.a2ab[e]; j < ch.a2ab[e + 1]; ++j) if (!leaf[ch.ab2b[j]]) all = false; if (all && choose("undo", 0, 1)) { dm[e] = 1; for (LO j = ch.a2ab[e]; j < ch.a2ab[e + 1]; ++j) gone[keys[D][ch.ab2b[j]]] = 1; } } amr::derefine(&m, dm, opts()); }
  checked(m, c); meshck::adjacency(m, false); int ok = 1; ASSERT(c[D].size() + gone.size() == b[D].size()); for (auto& kv : b[D]) ASSERT(c[D].count(kv.first) != gone.count(kv.first)); for (int d = 0; d <= D; ++d) for (auto& kv : c[d]) { ASSERT(b[d].count(kv.first)); Rec const &o = b[d][kv.first], &q = kv.second; ASSERT(o.cd == q.cd && o.ci == q.ci && o.level == q.level && o.par_dim == q.par_dim && o.which == q.which); if (tagged) same_values(o, q, ok, d == 0); } ASSERT(ok);
  // no entity is left that no remaining element, or child of one, uses
  { auto el = m.ask_verts_of(D); int deg = element_degree(OMEGA_H_HYPERCUBE, D, VERT); std::vector<int> used(m.nverts(), 0); for (LO i = 0; i < el.size(); ++i) used[el[i]] = 1; (void)deg; for (int u : used) ASSERT(u); }
  { auto g = m.globals(D); std::vector<GO> v(g.begin(), g.end()); std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) ASSERT(v[i] == (GO)i); }
  if (param("AGAIN", 1)) { auto leaf = m.ask_leaves(D); std::vector<LO> L; for (LO e = 0; e < m.nelems(); ++e) if (leaf[e]) L.push_back(e); Write<Byte> mk2(m.nelems(), 0); LO e = L[choose("again", 0, (int)L.size() - 1)]; mk2[e] = 1; std::vector<Key> marked(1, keys[D][e]); Bytes use(mk2); Snap z[4]; amr::refine(&m, use, opts()); checked(m, z); meshck::adjacency(m, false); refined(c, z, marked, tagged); } REACH("derefine"); }
// the mesh of leaves alone
H(amr_leaves) {
  Library lib; Mesh m = start(lib, param("SHAPE", 0)); bool tagged = param("TAGS", 0); if (tagged) tags(m); LO n = m.nelems(); Write<Byte> mk(n, 0); for (LO e = 0; e < n; ++e) mk[e] = (Byte)choose("mark", 0, 1); amr::refine(&m, mk, opts()); Snap b[4], c[4]; checked(m, b); amr::remove_non_leaf_uses(&m); snapshot(m, c); meshck::adjacency(m, true); int ok = 1; size_t leaves = 0; for (auto& kv : b[D]) if (kv.second.leaf) { ++leaves; ASSERT(c[D].count(kv.first)); } ASSERT(leaves == c[D].size()); for (int d = 0; d <= D; ++d) for (auto& kv : c[d]) { ASSERT(b[d].count(kv.first)); Rec const &o = b[d][kv.first], &q = kv.second; ASSERT(o.cd == q.cd && o.ci == q.ci && o.level == q.level); if (d == D) ASSERT(q.leaf); if (tagged) same_values(o, q, ok, d == 0); } ASSERT(ok); REACH("leaves"); }
