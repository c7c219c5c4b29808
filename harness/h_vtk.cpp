#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_base64.hpp"
#include "Omega_h_xml_lite.hpp"
#include "Omega_h_vtk.hpp"
#include "Omega_h_file.hpp"
#include "Omega_h_adj.hpp"
#include <sstream>
#include <fstream>
#include <algorithm>
// ---- C18: base64, xml_lite, vtk files
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
static int ref_char(int v) { int r = '+'; r = v == 63 ? '/' : r; r = v < 62 ? '0' + v - 52 : r; r = v < 52 ? 'a' + v - 26 : r; r = v < 26 ? 'A' + v : r; return r; }
static int ref_ok(int c) { return int(c >= 'A') & int(c <= 'Z') | int(c >= 'a') & int(c <= 'z') | int(c >= '0') & int(c <= '9') | int(c == '+') | int(c == '/') | int(c == '='); }
H(vtk_b64) {
  int n = choose("n", 0, param("N", 7)); std::vector<unsigned char> in(n + 1), out(n + 1, 0x5a); for (int i = 0; i < n; ++i) in[i] = (unsigned char)osym_i32("b", 0, 255); std::string e = base64::encode(in.data(), n); size_t units = (n + 2) / 3; ASSERT(e.size() == 4 * units); ASSERT(base64::encoded_size(n) == 4 * units);
  for (size_t u = 0; u < units; ++u) { int left = n - 3 * (int)u, w = in[3 * u] << 16 | (left > 1 ? in[3 * u + 1] : 0) << 8 | (left > 2 ? in[3 * u + 2] : 0); for (int k = 0; k < 4; ++k) { int want = k > left ? '=' : ref_char(w >> (18 - 6 * k) & 63); ASSERT((unsigned char)e[4 * u + k] == want); } }
  base64::decode(e, out.data(), n); int ok = 1; for (int i = 0; i < n; ++i) ok &= int(out[i] == in[i]); ASSERT(ok); ASSERT(out[n] == 0x5a); std::stringstream s; s << e << "\n" << e << "</x>"; ASSERT(base64::read_encoded(s) == e); ASSERT(base64::read_encoded(s) == e); char c; s.get(c); ASSERT(c == '/'); REACH("b64");
}
// text that is not base64 never decodes silently
H(vtk_b64_bad) { int sz = choose("size", 1, 3); std::string t(4, 0); int ok = 1; for (int i = 0; i < 4; ++i) { t[i] = (char)osym_i32("c", -128, 127); ok &= ref_ok(t[i]); } unsigned char out[4] = {0, 0, 0, 0x5a}; osym_expect_abort(1); base64::decode(t, out, sz); osym_expect_abort(0); ASSERT(ok); ASSERT(out[3] == 0x5a); REACH("bad"); }
H(vtk_b64_stop) { int n = choose("n", 0, 3); std::string t(n, 0); for (int i = 0; i < n; ++i) t[i] = (char)osym_i32("c", -128, 127); std::stringstream s(t); std::string r = base64::read_encoded(s); int k = 0; while (k < n && ref_ok(t[k])) ++k; ASSERT((int)r.size() == k); for (int i = 0; i < k; ++i) ASSERT(r[i] == t[i]); REACH("stop"); }
static std::string any_text(int n, char const* no) { std::string s(n, 0); for (auto& c : s) { c = (char)osym_i32("ch", -128, 127); int ok = 1; for (char const* p = no; *p; ++p) ok &= int(c != *p); osym_assume(ok & int(c != 0)); } return s; }
H(vtk_xml) {
  int kind = choose("kind", 0, 2), na = kind == 1 ? 0 : choose("attributes", 0, 2), sp = choose("spaces", 0, 2); std::string name = any_text(choose("name", 1, 2), " /<>"), a[2], v[2]; std::string t(choose("indent", 0, 1) * 2, ' '); t += kind == 1 ? "</" : "<"; t += name; int q = choose("quote", 0, 1);
  for (int i = 0; i < na; ++i) { a[i] = any_text(1, " =/>"); v[i] = any_text(choose("value", 0, param("V", 2)), q ? "'" : "\""); t += " " + a[i] + "=" + (q ? "'" : "\"") + v[i] + (q ? "'" : "\""); }
  if (na == 2) osym_assume(a[0] != a[1]); t += std::string(sp, ' '); t += kind == 2 ? "/>" : ">"; xml_lite::Tag tag; std::stringstream s(t + "\nnext"); bool clean = true; for (char c : t) if (c == '\n') clean = false;
  bool ok = xml_lite::parse_tag(t, &tag); ASSERT(ok); ASSERT(tag.type == (kind == 0 ? xml_lite::Tag::START : kind == 1 ? xml_lite::Tag::END : xml_lite::Tag::SELF_CLOSING)); ASSERT(tag.elem_name == name); ASSERT((int)tag.attribs.size() == na); for (int i = 0; i < na; ++i) ASSERT(tag.attribs[a[i]] == v[i]);
  if (clean) { auto g = xml_lite::read_tag(s); ASSERT(g.type == tag.type); ASSERT(g.elem_name == name); ASSERT(g.attribs == tag.attribs); std::string rest; s >> rest; ASSERT(rest == "next"); }
  // cut short, it is not a tag
  xml_lite::Tag u; t.pop_back(); if (!na && kind != 2) { ASSERT(!xml_lite::parse_tag(t, &u)); } else ASSERT(!xml_lite::parse_tag(t.substr(0, t.size() - (kind == 2)), &u)); REACH("xml");
}
H(vtk_xml_any) { int n = choose("n", 0, param("N", 5)); std::string t(n, 0); for (auto& c : t) c = (char)osym_i32("ch", -128, 127); xml_lite::Tag tag; bool ok = xml_lite::parse_tag(t, &tag); int i = 0; while (i < n && t[i] == ' ') ++i; bool opens = i < n && t[i] == '<', closes = false; for (int j = i + 1; j < n; ++j) if (t[j] == '>') closes = true; if (ok) { ASSERT(opens && closes); ASSERT(!tag.elem_name.empty()); REACH("accepted"); } else REACH("rejected"); }
// ---- whole files
template <class T> static uint64_t bits(T v) { return (uint64_t)(typename std::make_unsigned<T>::type)v; }
template <> uint64_t bits(double v) { return osym_dbits(v); }
template <class T> static Read<T> add(Mesh& m, int d, char const* n, int comps) { LO c = m.nents(d) * comps; Write<T> w(c); for (LO i = 0; i < c; ++i) w[i] = i < param("VALS", 2) ? Sym<T>::any(n) : T(100 - 3 * i); m.add_tag<T>(d, n, comps, Read<T>(w)); return Read<T>(w); }
template <class T> static void eq(Read<T> a, Read<T> b) { ASSERT(a.size() == b.size()); int ok = 1; for (LO i = 0; i < a.size(); ++i) ok &= int(bits<T>(a[i]) == bits<T>(b[i])); ASSERT(ok); }
static void equal(Mesh& a, Mesh& b) {
  ASSERT(a.dim() == b.dim() && a.family() == b.family()); ASSERT(a.nverts() == b.nverts() && a.nelems() == b.nelems()); eq(a.ask_elem_verts(), b.ask_elem_verts());
  for (int d : {0, a.dim()}) for (int i = 0; i < a.ntags(d); ++i) { auto t = a.get_tag(d, i); ASSERT(b.has_tag(d, t->name())); auto u = b.get_tagbase(d, t->name()); ASSERT(u->ncomps() == t->ncomps()); ASSERT(u->type() == t->type()); if (is<I8>(t)) eq(as<I8>(t)->array(), as<I8>(u)->array()); else if (is<I32>(t)) eq(as<I32>(t)->array(), as<I32>(u)->array()); else if (is<I64>(t)) eq(as<I64>(t)->array(), as<I64>(u)->array()); else eq(as<Real>(t)->array(), as<Real>(u)->array()); }
}
static void dress(Mesh& m) { int D = m.dim(); add<Real>(m, 0, "coordinates", D); add<I8>(m, D, "i8", 2); add<I32>(m, 0, "name with spaces", 1); add<I64>(m, D, "i64", 1); add<Real>(m, 0, "vec", D); add<Real>(m, D, "symm", symm_ncomps(D)); add<Real>(m, D, "four", 4); add<Real>(m, 0, "one", 1); }
H(vtk_vtu) { Library lib; Mesh m = smallmesh::topo(lib, choose("mesh", param("LO", 0), param("HI", 5))); dress(m); bool z = choose("compressed", 0, 1); vtk::write_vtu("m.vtu", &m, z); std::ifstream f("m.vtu"); ASSERT(f.is_open()); Mesh r(&lib); vtk::read_vtu(f, lib.world(), &r); equal(m, r); ASSERT(!r.has_tag(0, "local") && !r.has_tag(m.dim(), "local")); vtk::write_vtu("n.vtu", &r, z); REACH("vtu"); }
// only the tags asked for are written
H(vtk_tagset) { Library lib; Mesh m = smallmesh::topo(lib, choose("mesh", 0, 2)); dress(m); TagSet ts; int D = m.dim(); bool a = choose("vec", 0, 1), b = choose("four", 0, 1); if (a) ts[0].insert("vec"); if (b) ts[size_t(D)].insert("four"); vtk::write_vtu("m.vtu", &m, D, ts, false); std::ifstream f("m.vtu"); Mesh r(&lib); vtk::read_vtu(f, lib.world(), &r); ASSERT(r.has_tag(0, "vec") == a && r.has_tag(D, "four") == b); ASSERT(!r.has_tag(0, "one") && !r.has_tag(D, "i8")); eq(m.coords(), r.coords()); if (a) eq(m.get_array<Real>(0, "vec"), r.get_array<Real>(0, "vec")); if (b) eq(m.get_array<Real>(D, "four"), r.get_array<Real>(D, "four")); REACH("tagset"); }
// a file from a machine of the other byte order: every stored word reversed and the start tag saying so
static std::string flip(std::string const& t) {
  std::stringstream in(t); std::string out, line; int width = 0; bool content = false; while (std::getline(in, line)) { xml_lite::Tag tag; size_t e = line[0] == '<' ? line.find("LittleEndian") : std::string::npos; if (e != std::string::npos) line = line.substr(0, e) + "BigEndian" + line.substr(e + 12);
    if (width) { size_t h = base64::encoded_size(8); uint64_t bytes; base64::decode(line.substr(0, h), &bytes, 8); uint64_t fb = __builtin_bswap64(bytes); std::string rest = line.substr(h); if (content) { std::vector<unsigned char> d(bytes + 1); base64::decode(rest, d.data(), bytes); for (size_t n = 0; n + width <= bytes; n += width) std::reverse(&d[n], &d[n] + width); rest = base64::encode(d.data(), bytes); } line = base64::encode(&fb, 8) + rest; width = 0; }
    else if (line[0] == '<' && line.find("<DataArray") == 0 && xml_lite::parse_tag(line, &tag)) { auto ty = tag.attribs["type"]; width = ty == "Int8" ? 1 : ty == "Int32" ? 4 : 8; content = tag.attribs["Name"] == "connectivity" || tag.attribs["Name"] == "offsets"; }
    out += line + "\n"; }
  return out;
}
static int64_t rev(int64_t x) { return (int64_t)__builtin_bswap64((uint64_t)x); } static int32_t rev(int32_t x) { return (int32_t)__builtin_bswap32((uint32_t)x); } static int8_t rev(int8_t x) { return x; } static double rev(double x) { int64_t i; memcpy(&i, &x, 8); i = rev(i); memcpy(&x, &i, 8); return x; }
template <class T> static void both(Mesh& a, Mesh& b, int d, char const* n, int comps) { auto r = add<T>(a, d, n, comps); Write<T> w(r.size()); for (LO i = 0; i < r.size(); ++i) w[i] = rev(r[i]); b.add_tag<T>(d, n, comps, Read<T>(w)); }
H(vtk_swapped) {
  Library lib; int which = choose("mesh", 0, 2); Mesh m = smallmesh::topo(lib, which), b = smallmesh::topo(lib, which); int D = m.dim(); both<Real>(m, b, 0, "coordinates", D); both<I8>(m, b, D, "i8", 2); both<I32>(m, b, 0, "i32", 1); both<I64>(m, b, D, "i64", 1); both<Real>(m, b, 0, "vec", D); TagSet ts; ts[0] = {"i32", "vec"}; ts[size_t(D)] = {"i8", "i64"}; std::stringstream s;
  { std::string o, line; vtk::write_vtu("b.vtu", &b, D, ts, false); std::ifstream f("b.vtu"); while (std::getline(f, line)) o += line + "\n"; s << flip(o); }
  m.remove_tag(0, "global"); m.remove_tag(D, "global"); Mesh r(&lib); vtk::read_vtu(s, lib.world(), &r); equal(m, r); REACH("swapped"); }
static bool zip; static int ghosts;
static void parts_rank(int) { Library lib; Mesh m = build_box(lib.world(), param("CUBE", 0) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, 1, 1, 0, 2, 1, 0); if (ghosts) m.set_parting(OMEGA_H_GHOSTED); m.remove_tag(0, "coordinates"); add<Real>(m, 0, "coordinates", 2); add<I64>(m, 2, "sym", 1); add<Real>(m, 0, "vec", 2); vtk::write_parallel("par", &m, zip); lib.world()->barrier(); Mesh r(&lib); vtk::read_parallel(vtk::get_pvtu_path("par"), lib.world(), &r); 
  ASSERT(r.parting() == m.parting()); ASSERT(r.nghost_layers() == m.nghost_layers()); equal(m, r); for (int d : {0, 2}) { auto o = m.ask_owners(d), p = r.ask_owners(d); eq(m.globals(d), r.globals(d)); if (ghosts) { ASSERT(o.ranks.size() == p.ranks.size()); } } lib.world()->barrier(); }
H(vtk_parts) { zip = choose("compressed", 0, 1); ghosts = choose("ghosts", 0, 1); mpi_sim_run(2, parts_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); REACH("parts"); }
