#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_file.hpp"
#include "Omega_h_inertia.hpp"
#include <sstream>
#include <fstream>
#include <algorithm>
// ---- C17: binary mesh files
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
template <class T> static uint64_t bits(T v) { return (uint64_t)(typename std::make_unsigned<T>::type)v; }
template <> uint64_t bits(double v) { return osym_dbits(v); }
template <class T> static void prims(int n) {
  bool z = choose("compressed", 0, 1), sw = choose("swap", 0, 1); Write<T> w(n); std::vector<uint64_t> b; for (int i = 0; i < n; ++i) { w[i] = Sym<T>::any("a"); b.push_back(bits<T>(w[i])); } std::stringstream s; T one = Sym<T>::any("v"); uint64_t ob = bits<T>(one); binary::write_value(s, one, sw); std::string mid = s.str(); ASSERT(mid.size() == sizeof(T));
  // a value is stored least significant byte first, or last when the machine is the other kind
  for (size_t i = 0; i < sizeof(T); ++i) ASSERT((unsigned char)mid[i] == (unsigned char)(ob >> (8 * (sw ? sizeof(T) - 1 - i : i))));
  binary::write_array(s, Read<T>(w), z, sw); for (int i = 0; i < n; ++i) ASSERT(bits<T>(w[i]) == b[i]); binary::write(s, std::string("name\0x", 6), sw); I32 last = osym_i32("last", INT32_MIN, INT32_MAX); binary::write_value(s, last, sw); std::string all = s.str();
  if (!z) { size_t at = sizeof(T); for (int i = 0; i < 4; ++i) ASSERT((unsigned char)all[at + (sw ? 3 - i : i)] == (unsigned char)((unsigned)n >> (8 * i))); at += 4; for (int k = 0; k < n; ++k) for (size_t i = 0; i < sizeof(T); ++i) ASSERT((unsigned char)all[at + k * sizeof(T) + i] == (unsigned char)(b[k] >> (8 * (sw ? sizeof(T) - 1 - i : i)))); }
  T got; binary::read_value(s, got, sw); ASSERT(bits<T>(got) == ob); Read<T> r; binary::read_array(s, r, z, sw); ASSERT(r.size() == n); for (int i = 0; i < n; ++i) ASSERT(bits<T>(r[i]) == b[i]); std::string t = "old"; binary::read(s, t, sw); ASSERT(t == std::string("name\0x", 6)); I32 l2; binary::read_value(s, l2, sw); ASSERT(l2 == last); ASSERT((bool)s); char c; s.read(&c, 1); ASSERT(!s); REACH("prims");
}
H(file_i8) { Library lib; prims<I8>(choose("n", 0, param("N", 3))); }
H(file_i32) { Library lib; prims<I32>(choose("n", 0, param("N", 3))); }
H(file_i64) { Library lib; prims<I64>(choose("n", 0, param("N", 3))); }
H(file_real) { Library lib; prims<Real>(choose("n", 0, param("N", 3))); }
template <class T> static void add(Mesh& m, int d, char const* n, int comps) { LO c = m.nents(d) * comps; Write<T> w(c); for (LO i = 0; i < c; ++i) w[i] = Sym<T>::any(n); m.add_tag<T>(d, n, comps, Read<T>(w)); }
template <class T> static int same(Read<T> a, Read<T> b) { if (a.size() != b.size()) return 0; int ok = 1; for (LO i = 0; i < a.size(); ++i) ok &= int(bits<T>(a[i]) == bits<T>(b[i])); return ok; }
static void equal(Mesh& a, Mesh& b) {
  ASSERT(a.dim() == b.dim() && a.family() == b.family() && a.parting() == b.parting() && a.nghost_layers() == b.nghost_layers()); ASSERT(a.comm()->size() == b.comm()->size()); ASSERT(a.comm()->rank() == b.comm()->rank());
  for (int d = 0; d <= a.dim(); ++d) { ASSERT(a.nents(d) == b.nents(d)); if (d) { auto x = a.ask_down(d, d - 1), y = b.ask_down(d, d - 1); ASSERT(same(x.ab2b, y.ab2b)); if (d > 1) ASSERT(same(x.codes, y.codes)); ASSERT(same(a.ask_verts_of(d), b.ask_verts_of(d))); }
    ASSERT(a.ntags(d) == b.ntags(d)); for (int i = 0; i < a.ntags(d); ++i) { auto t = a.get_tag(d, i); ASSERT(b.has_tag(d, t->name())); auto u = b.get_tagbase(d, t->name()); ASSERT(b.get_tag(d, i)->name() == t->name()); ASSERT(u->ncomps() == t->ncomps() && u->type() == t->type()); int ok = t->type() == OMEGA_H_I8 ? same(as<I8>(t)->array(), as<I8>(u)->array()) : t->type() == OMEGA_H_I32 ? same(as<I32>(t)->array(), as<I32>(u)->array()) : t->type() == OMEGA_H_I64 ? same(as<I64>(t)->array(), as<I64>(u)->array()) : same(as<Real>(t)->array(), as<Real>(u)->array()); ASSERT(ok); }
    auto o = a.ask_owners(d), p = b.ask_owners(d); ASSERT(same(o.ranks, p.ranks)); ASSERT(same(o.idxs, p.idxs)); }
  ASSERT(a.class_sets.size() == b.class_sets.size()); for (auto& s : a.class_sets) { auto it = b.class_sets.find(s.first); ASSERT(it != b.class_sets.end()); ASSERT(it->second.size() == s.second.size()); for (size_t i = 0; i < s.second.size(); ++i) ASSERT(it->second[i].dim == s.second[i].dim && it->second[i].id == s.second[i].id); }
  auto h = a.rib_hints(), k = b.rib_hints(); ASSERT(!h == !k); if (h) { ASSERT(h->axes.size() == k->axes.size()); for (size_t i = 0; i < h->axes.size(); ++i) for (int j = 0; j < 3; ++j) ASSERT(osym_dbits(h->axes[i][j]) == osym_dbits(k->axes[i][j])); }
  ASSERT(a.has_any_parents() == b.has_any_parents()); if (a.has_any_parents()) for (int d = 0; d <= a.dim(); ++d) { auto x = a.ask_parents(d), y = b.ask_parents(d); ASSERT(same(x.parent_idx, y.parent_idx)); ASSERT(same(x.codes, y.codes)); }
}
static void dress(Mesh& m, int extras) {
  int D = m.dim(); add<Real>(m, VERT, "coordinates", D); add<I8>(m, D, "i8", 2); add<I32>(m, 0, "a name with spaces", 1); if (D > 1) add<I64>(m, 1, "i64", 1); add<Real>(m, D, "x", 3); for (int d = 0; d <= D; ++d) { add<ClassId>(m, d, "class_id", 1); add<I8>(m, d, "class_dim", 1); }
  if (extras & 1) { m.class_sets["one"] = {{osym_i32("sd", 0, 3), osym_i32("si", INT32_MIN, INT32_MAX)}, {osym_i32("sd", 0, 3), osym_i32("si", INT32_MIN, INT32_MAX)}}; m.class_sets["empty"] = {}; m.class_sets[""] = {{2, osym_i32("si", INT32_MIN, INT32_MAX)}}; auto rib = std::make_shared<inertia::Rib>(); for (int i = 0; i < 2; ++i) { Vector<3> v; for (int j = 0; j < 3; ++j) v[j] = osym_f64("axis"); rib->axes.push_back(v); } m.set_rib_hints(rib); }
  if (extras & 2) for (int d = 0; d <= D; ++d) { LO n = m.nents(d); Write<LO> p(n); Write<I8> c(n); for (LO i = 0; i < n; ++i) { p[i] = osym_i32("parent", -1, 5); c[i] = (I8)osym_i32("pcode", -128, 127); } m.set_parents(d, Parents(LOs(p), Read<I8>(c))); }
}
H(file_stream) { Library lib; Mesh m = smallmesh::topo(lib, choose("mesh", param("LO", 0), param("HI", 5))); dress(m, choose("extras", 0, 3)); if (choose("ghosted", 0, 1)) m.set_parting(OMEGA_H_GHOSTED, 2, false); std::stringstream s; binary::write(s, &m); Mesh r(&lib); r.set_comm(lib.world()); binary::read(s, &r, binary::latest_version); ASSERT((bool)s); char c; s.read(&c, 1); ASSERT(!s); equal(m, r); REACH("stream"); }
H(file_path) { Library lib; Mesh m = smallmesh::topo(lib, choose("mesh", 0, 2)); dress(m, 3); binary::write("out.osh", &m); bool strict = choose("strict", 0, 1); Mesh r = binary::read("out.osh", &lib, strict); equal(m, r); binary::write("out.osh", &r); Mesh q(&lib); ASSERT(binary::read("out.osh", lib.world(), &q, strict) == 1); equal(m, q); REACH("path"); }
static bool ghosts;
static void parts_rank(int) { Library lib; Mesh m = build_box(lib.world(), param("CUBE", 0) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, 1, 1, 0, 2, 1, 0); if (ghosts) m.set_parting(OMEGA_H_GHOSTED); add<I64>(m, 2, "sym", 1); binary::write("par.osh", &m); Mesh r = binary::read("par.osh", lib.world(), true); equal(m, r); lib.world()->barrier(); }
H(file_parts) { ghosts = choose("ghosts", 0, 1); mpi_sim_run(2, parts_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); REACH("parts"); }
