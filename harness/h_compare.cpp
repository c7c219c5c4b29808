#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_compare.hpp"
#include "Omega_h_migrate.hpp"
#include "Omega_h_scalar.hpp"
#include <fstream>
// ---- C35: comparing arrays and meshes
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
template <class T> static void arrays() {
  Library lib; int n = choose("n", 0, 3); Write<T> a(n), b(n); int eq = 1; for (int i = 0; i < n; ++i) { a[i] = Sym<T>::any("a"); b[i] = Sym<T>::any("b"); eq &= int(a[i] == b[i]); } VarCompareOpts o = choose("type", 0, 1) ? VarCompareOpts::defaults() : choose("none", 0, 1) ? VarCompareOpts::none() : VarCompareOpts::zero_tolerance(); bool v = choose("verbose", 0, 1); bool r = compare_arrays(lib.world(), Read<T>(a), Read<T>(b), o, 1, 0, v); ASSERT(int(r) == (o.type == VarCompareOpts::NONE ? 1 : eq)); ASSERT(r == compare_arrays(lib.world(), Read<T>(b), Read<T>(a), o, 1, 0, v)); REACH("arrays"); }
H(cmp_i8) { arrays<I8>(); } H(cmp_i32) { arrays<I32>(); } H(cmp_i64) { arrays<I64>(); }
// by the definition: within the floor both count as zero, otherwise the difference over the larger magnitude
static int close_ref(Real a, Real b, VarCompareOpts o) { if (o.type == VarCompareOpts::ABSOLUTE) return int(__builtin_fabs(a - b) <= o.tolerance); Real x = __builtin_fabs(a), y = __builtin_fabs(b), d = __builtin_fabs(b - a); int small = int(x <= o.floor) & int(y <= o.floor); Real m = x < y ? y : x; return small | int(d / m <= o.tolerance); }
static VarCompareOpts opts() { static Real const t[] = {0.0, 0.25, 1.0 / 1048576, 2.0}, f[] = {0.0, 0.125, 1024.0}; return VarCompareOpts{choose("relative", 0, 1) ? VarCompareOpts::RELATIVE : VarCompareOpts::ABSOLUTE, t[choose("tolerance", 0, 3)], f[choose("floor", 0, 2)]}; }
// integers over four: the differences are exact, so the ratio test is exact integer arithmetic
H(cmp_real) {
  Library lib; int n = choose("n", 0, param("N", 1)); VarCompareOpts o = opts(); Write<Real> a(n), b(n); int ok = 1; for (int i = 0; i < n; ++i) { static int64_t const Q0[] = {0, 1, -3, 20, -20}; int64_t q = Q0[choose("b", 0, 4)], p = osym_i64("a", -(q < 0 ? -q : q), q < 0 ? -q : q); a[i] = Real(p) * 0.25; b[i] = Real(q) * 0.25; int64_t P = p < 0 ? -p : p, Q = q < 0 ? -q : q, M = P > Q ? P : Q, d = p < q ? q - p : p - q; int64_t ff = int64_t(o.floor * 4); int within = o.type == VarCompareOpts::ABSOLUTE ? int(d <= int64_t(o.tolerance * 4)) : (int(P * 2 <= ff * 2 + (o.floor == 0.125 ? 1 : 0)) & int(Q * 2 <= ff * 2 + (o.floor == 0.125 ? 1 : 0))) | int((d << 20) <= int64_t(o.tolerance * 1048576) * M); ok &= within; }
  bool v = param("VERBOSE", 0); ASSERT(int(compare_arrays(lib.world(), Reals(a), Reals(b), o, 1, 0, v)) == ok); ASSERT(int(compare_arrays(lib.world(), Reals(b), Reals(a), o, 1, 0, v)) == ok); REACH("real"); }
// every bit pattern, not-a-number included
H(cmp_bits) { Library lib; VarCompareOpts o = opts(); if (param("ABS", 0)) o.type = VarCompareOpts::ABSOLUTE; else o.type = VarCompareOpts::RELATIVE; Write<Real> a(1), b(1); a[0] = osym_f64("a"); b[0] = osym_f64("b"); bool r = compare_arrays(lib.world(), Reals(a), Reals(b), o, 1, 0, false); ASSERT(int(r) == close_ref(a[0], b[0], o)); ASSERT(compare_real(a[0], b[0], o) == r); REACH("bits"); }
H(cmp_nan) { Library lib; VarCompareOpts o = opts(); Write<Real> a(2), b(2); static Real const v[] = {__builtin_nan(""), __builtin_inf(), 1.0, -__builtin_inf(), 0.0}; for (int i = 0; i < 2; ++i) { a[i] = v[choose("a", 0, 4)]; b[i] = v[choose("b", 0, 4)]; } bool r = compare_arrays(lib.world(), Reals(a), Reals(b), o, 1, 0, true), s = compare_arrays(lib.world(), Reals(b), Reals(a), o, 1, 0, true); ASSERT(r == s); for (int i = 0; i < 2; ++i) if (a[i] != a[i] || b[i] != b[i]) ASSERT(!r); REACH("nan"); }
// whole meshes: tag t of b is absent, equal, different in one value, of another type or width
template <class T> static void put(Mesh& m, int d, char const* n, int c, std::vector<int> const& v) { Write<T> w(m.nents(d) * c); for (LO i = 0; i < w.size(); ++i) w[i] = T(v[i]); m.add_tag<T>(d, n, c, Read<T>(w)); }
static void put_any(Mesh& m, int ty, int d, char const* n, int c, std::vector<int> const& v) { if (ty == 0) put<I8>(m, d, n, c, v); else if (ty == 1) put<I32>(m, d, n, c, v); else if (ty == 2) put<I64>(m, d, n, c, v); else put<Real>(m, d, n, c, v); }
H(cmp_mesh) {
  Library lib; int which = choose("mesh", 0, param("M", 5)); Mesh a = smallmesh::make(lib, which), b = smallmesh::make(lib, which); int D = a.dim(), d = choose("dim", 0, 1) * D; int ty = choose("type", 0, 3), how = choose("how", 0, 4); LO n = a.nents(d); std::vector<int> x(2 * n), y(2 * n); int same = 1; for (LO i = 0; i < n; ++i) { x[i] = osym_i32("x", -100, 100); y[i] = osym_i32("y", -100, 100); same &= int(x[i] == y[i]); }
  bool cmp = choose("listed", 0, 1); if (how != 1) put_any(a, ty, d, "t", 1, x); if (how == 4) put_any(b, (ty + 1) % 4, d, "t", 1, x); else if (how == 3) put_any(b, ty, d, "t", 2, x); else if (how != 0) put_any(b, ty, d, "t", 1, y); auto o = MeshCompareOpts::init(&a, VarCompareOpts::zero_tolerance()); if (!cmp) o.tags2opts[d].erase("t");
  auto r = compare_meshes(&a, &b, o, choose("verbose", 0, 1), true); int want = how == 0 || how >= 3 ? OMEGA_H_DIFF : how == 1 ? OMEGA_H_MORE : cmp && !same ? OMEGA_H_DIFF : OMEGA_H_SAME; ASSERT((int)r == want); if (how == 2 && cmp) ASSERT(compare_meshes(&b, &a, o, false, true) == r); REACH("mesh"); }
// topology: a different connectivity or count is found
H(cmp_topo) { Library lib; int p = choose("p", 0, 5), q = choose("q", 0, 5); Mesh a = smallmesh::topo(lib, p), b = smallmesh::topo(lib, q); auto o = MeshCompareOpts::init(&a, VarCompareOpts::zero_tolerance()); auto r = compare_meshes(&a, &b, o, false, true); ASSERT((r == OMEGA_H_SAME) == (p == q)); REACH("topo"); }
// a single element vertex replaced
H(cmp_conn) { Library lib; int k[12], bad = choose("entry", 0, 5), to = choose("vertex", 0, 4); static LO const T[] = {0, 1, 2, 2, 1, 3}; Write<LO> ev(6), fv(6); for (int i = 0; i < 6; ++i) { ev[i] = T[i]; fv[i] = T[i]; } fv[bad] = to; (void)k; for (int i = 0; i < 6; i += 3) osym_assume(fv[i] != fv[i + 1] && fv[i + 1] != fv[i + 2] && fv[i] != fv[i + 2]); Mesh a(&lib), b(&lib); build_from_elems2verts(&a, OMEGA_H_SIMPLEX, 2, LOs(ev), 5); build_from_elems2verts(&b, OMEGA_H_SIMPLEX, 2, LOs(fv), 5); auto r = compare_meshes(&a, &b, MeshCompareOpts::init(&a, VarCompareOpts::zero_tolerance()), false, choose("full", 0, 1)); ASSERT((r == OMEGA_H_SAME) == (to == T[bad])); REACH("conn"); }
// the same mesh cut differently over two ranks is the same; one value changed on one entity is not
static int move[4], hit, change; static bool ghost;
static void parts_rank(int) {
  Library lib; auto w = lib.world(); Mesh a = build_box(w, OMEGA_H_SIMPLEX, 1, 1, 0, 2, 1, 0), b = build_box(w, OMEGA_H_SIMPLEX, 1, 1, 0, 2, 1, 0); for (Mesh* m : {&a, &b}) for (int d : {0, 2}) { auto g = m->globals(d); Write<I32> v(g.size()); for (LO i = 0; i < g.size(); ++i) v[i] = I32(g[i]) * 10 + (m == &b && d == 2 && g[i] == hit ? change : 0); m->add_tag<I32>(d, "t", 1, Read<I32>(v)); }
  auto g = b.globals(2); auto own = b.ask_owners(2); std::vector<I32> rk; std::vector<LO> ix; for (int gl = 0; gl < 4; ++gl) if (move[gl] == w->rank()) { rk.push_back(gl / 2); ix.push_back(gl % 2); } Write<I32> r((int)rk.size()); Write<LO> x((int)ix.size()); for (int i = 0; i < (int)rk.size(); ++i) { r[i] = rk[i]; x[i] = ix[i]; } ASSERT(g.size() == 2 && g[0] == 2 * w->rank()); migrate_mesh(&b, Dist(w, Remotes(Read<I32>(r), LOs(x)), b.nelems()), OMEGA_H_ELEM_BASED, false); if (ghost) b.set_parting(OMEGA_H_GHOSTED);
  auto o = MeshCompareOpts::init(&a, VarCompareOpts::zero_tolerance()); auto res = compare_meshes(&a, &b, o, false, true); ASSERT((res == OMEGA_H_SAME) == (change == 0)); ASSERT((compare_meshes(&b, &a, o, false, true) == OMEGA_H_SAME) == (change == 0)); w->barrier(); }
H(cmp_parts) { for (int i = 0; i < 4; ++i) move[i] = choose("to", 0, 1); ghost = choose("ghost", 0, 1); hit = choose("hit", 0, 3); change = osym_i32("change", -1, 1); mpi_sim_run(2, parts_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); REACH("parts"); }
// exodiff command files: sections in any order, each listing none, some or all variables
static bool in(std::vector<std::string> const& v, std::string const& s) { for (auto& x : v) if (x == s) return true; return false; }
H(cmp_file) {
  Library lib; Mesh m = smallmesh::make(lib, 0); put<I32>(m, 0, "n1", 1, {1, 2, 3, 4}); put<I32>(m, 0, "n2", 1, {1, 2, 3, 4}); put<I32>(m, 2, "e1", 1, {1, 2}); put<I32>(m, 2, "e2", 1, {1, 2}); bool swap = choose("swap", 0, 1), coords = choose("coordinates", 0, 1); int lead = choose("lead", 0, 1); int mode[2]; bool used[2]; std::string t = lead ? "# comment\n\n" : ""; if (coords) t += "COORDINATES absolute 0.5\n"; std::vector<std::string> want[2]; static char const* const nm[2][2] = {{"n1", "n2"}, {"e1", "e2"}}; Real tol[2] = {0, 0};
  for (int k = 0; k < 2; ++k) { int s = swap ? 1 - k : k; used[s] = choose("used", 0, 1); if (!used[s]) continue; mode[s] = choose("mode", 0, 3); tol[s] = s ? 0.25 : 0.125; t += s ? "ELEMENT VARIABLES" : "NODAL VARIABLES"; if (mode[s] >= 2) t += " (all)"; t += s ? " absolute 0.25" : " relative 0.125 floor 2"; t += "\n"; for (int i = 0; i < m.ntags(s * 2); ++i) want[s].push_back(m.get_tag(s * 2, i)->name()); if (mode[s] == 1) { t += std::string("\t") + nm[s][0] + "\n"; want[s] = {nm[s][0]}; } if (mode[s] == 3) { t += std::string("\t!") + nm[s][1] + "\n"; std::vector<std::string> w; for (auto& x : want[s]) if (x != nm[s][1]) w.push_back(x); want[s] = w; } }
  if (choose("late", 0, 1) && !coords) { t += "COORDINATES absolute 0.5\n"; coords = true; } { std::ofstream f("cmd"); f << t; }
  CmdLine cl; get_diff_program_cmdline("a", "b", &cl); std::string p = "p", x = "one", y = "two", f = "-f", c = "cmd", s = "-superset"; bool sup = choose("superset", 0, 1); char* av[] = {&p[0], &x[0], &f[0], &c[0], &y[0], &s[0], nullptr}; int ac = sup ? 6 : 5; bool ok = cl.parse_final(lib.world(), &ac, av); ASSERT(ok); MeshCompareOpts o; Omega_h_Comparison mx; accept_diff_program_cmdline(cl, &m, &o, &mx); ASSERT(mx == (sup ? OMEGA_H_MORE : OMEGA_H_SAME));
  for (int k = 0; k < 2; ++k) for (int i = 0; i < m.ntags(k * 2); ++i) { auto n = m.get_tag(k * 2, i)->name(); auto q = o.tag_opts(k * 2, n); if (n == "coordinates" && coords) continue; bool e = used[k] && in(want[k], n); ASSERT((q.type != VarCompareOpts::NONE) == e); if (e) { ASSERT(q.type == (k ? VarCompareOpts::ABSOLUTE : VarCompareOpts::RELATIVE)); ASSERT(q.tolerance == tol[k]); if (!k) ASSERT(q.floor == 2); } }
  if (coords) ASSERT(o.tag_opts(0, "coordinates").type != VarCompareOpts::NONE); REACH("file"); }
