#include "cavity.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_profile.hpp"
#include "Omega_h_array_ops.hpp"
#include "Omega_h_sort.hpp"
#include "Omega_h_scan.hpp"
#include "Omega_h_file.hpp"
#include "Omega_h_metric.hpp"
#include "Omega_h_adapt.hpp"
#include "Omega_h_refine.hpp"
#include "Omega_h_coarsen.hpp"
#include "Omega_h_migrate.hpp"
#include "Omega_h_dist.hpp"
#include "Omega_h_vtk.hpp"
#include "Omega_h_int_scan.hpp"
#include <sstream>
namespace pf = Omega_h::profile;
// ---- C38: profiling frames
// the stored tree is a tree: children and parents agree, siblings have different names, nothing is lost
static void well_formed(pf::History const& h) {
  size_t n = h.frames.size(), seen = 0; std::vector<size_t> depth(n, 0); std::vector<size_t> todo; for (size_t f = h.first(pf::invalid); f != pf::invalid; f = h.next(f)) { ASSERT(f < n); ASSERT(h.parent(f) == pf::invalid); todo.push_back(f); ASSERT(todo.size() <= n); }
  for (size_t i = 0; i < todo.size(); ++i) { ++seen; size_t last = pf::invalid; for (size_t c = h.first(todo[i]); c != pf::invalid; c = h.next(c)) { ASSERT(c < n); ASSERT(h.parent(c) == todo[i]); todo.push_back(c); ASSERT(todo.size() <= n); last = c; } ASSERT(h.frames[todo[i]].last_child == last); }
  ASSERT(seen == n); for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < a; ++b) if (h.parent(a) == h.parent(b)) ASSERT(std::string(h.get_name(a)) != h.get_name(b)); }
// any sequence of begins and ends against a plain tree of names
struct Ref { std::string name; int up; size_t calls; double lo, hi; };
H(prof_tree) {
  pf::History h; pf::global_singleton_history = &h; int n = param("N", 4); std::vector<Ref> t; std::vector<int> at{-1}; 
  for (int i = 0; i < n; ++i) { if (at.size() > 1 && choose("end", 0, 1)) { end_code(); at.pop_back(); } else { std::string nm(choose("length", 0, 1), 0); for (auto& c : nm) { c = (char)osym_i32("ch", -128, 127); osym_assume(c != 0); } begin_code(nm.c_str()); int k = -1; for (size_t j = 0; j < t.size(); ++j) if (t[j].up == at.back() && t[j].name == nm) k = (int)j; if (k < 0) { k = (int)t.size(); t.push_back({nm, at.back(), 0, 0, 0}); } ++t[k].calls; at.push_back(k); }
    ASSERT((h.current_frame == pf::invalid) == (at.size() == 1)); if (at.size() > 1) ASSERT((int)h.current_frame == at.back()); }
  while (at.size() > 1) { end_code(); at.pop_back(); } ASSERT(h.current_frame == pf::invalid); ASSERT(h.frames.size() == t.size()); for (size_t i = 0; i < t.size(); ++i) { ASSERT(t[i].name == h.get_name(i)); ASSERT(h.parent(i) == (t[i].up < 0 ? pf::invalid : (size_t)t[i].up)); ASSERT(h.calls(i) == t[i].calls); ASSERT(h.time(i) > 0); double kids = 0; for (size_t c = h.first(i); c != pf::invalid; c = h.next(c)) kids += h.time(c); ASSERT(kids <= h.time(i) * (1 + 1e-9)); } well_formed(h);
  // every frame comes once in the walk, parents before children
  std::vector<char> seen(t.size(), 0); size_t cnt = 0; for (size_t f = t.empty() ? pf::invalid : 0; f != pf::invalid; f = h.pre_order_next(f)) { ASSERT(f < t.size() && !seen[f]); ASSERT(h.parent(f) == pf::invalid || seen[h.parent(f)]); seen[f] = 1; ++cnt; ASSERT(cnt <= t.size()); } ASSERT(cnt == t.size());
  pf::global_singleton_history = nullptr; REACH("tree"); }
// the bottom-up profile charges every function its own time once, and its callers in turn
H(prof_invert) {
  int n = choose("n", 1, param("N", 4)); pf::History h; std::vector<int> up(n); std::vector<int64_t> self(n), total(n); static char const* const nm[] = {"a", "b", "c"}; std::vector<int> name(n);
  for (int i = 0; i < n; ++i) { up[i] = choose("parent", -1, i - 1); name[i] = choose("name", 0, 2); for (int j = 0; j < i; ++j) if (up[j] == up[i] && name[j] == name[i]) osym_assume(0); size_t f = h.create_child_of(up[i] < 0 ? pf::invalid : (size_t)up[i], nm[name[i]]); ASSERT(f == (size_t)i); self[i] = osym_i64("self", 0, 1 << 20); total[i] = self[i]; h.frames[f].number_of_calls = (size_t)osym_i64("calls", 1, 1000); }
  for (int i = n - 1; i > 0; --i) if (up[i] >= 0) total[up[i]] += total[i]; for (int i = 0; i < n; ++i) h.frames[i].total_runtime = (double)total[i]; pf::History v = pf::invert(h); well_formed(v);
  for (int k = 0; k < 3; ++k) { int64_t want = 0; size_t calls = 0; bool any = false; for (int i = 0; i < n; ++i) if (name[i] == k) { any = true; want += self[i]; calls += h.calls(i); } size_t r = v.find_root(nm[k]); ASSERT((r != pf::invalid) == any); if (any) { ASSERT(v.time(r) == (double)want); ASSERT(v.calls(r) == calls); } }
  // the callers of a function share out its time
  for (size_t f = 0; f < v.frames.size(); ++f) { double kids = 0; for (size_t c = v.first(f); c != pf::invalid; c = v.next(c)) kids += v.time(c); ASSERT(kids <= v.time(f)); } REACH("invert"); }
// every operation returns the profiler to where it was
static void op(int k, Library& lib) {
  auto w = lib.world(); int n = choose("size", 0, 2); 
  if (k == 0) { Write<Real> a(n); for (int i = 0; i < n; ++i) a[i] = choose("zero", 0, 1) ? 0.0 : 1.5; repro_sum(Reals(a)); }
  else if (k == 1) { Write<Real> a(n); for (int i = 0; i < n; ++i) a[i] = choose("zero", 0, 1) ? 0.0 : 1.5; repro_sum(w, Reals(a)); Real r[2]; repro_sum(w, Reals(n * 2, 1.0), 2, r); }
  else if (k == 2) { Write<LO> a(n); for (int i = 0; i < n; ++i) a[i] = osym_i32("k", -3, 3); sort_by_keys(LOs(a)); offset_scan(LOs(a)); HostWrite<LO> hw(n); LOs q(hw.write()); HostRead<LO> hr(q); }
  else if (k == 3) { Mesh m = smallmesh::make(lib, n); std::stringstream s; binary::write(s, &m); Mesh r(&lib); r.set_comm(w); binary::read(s, &r, binary::latest_version); binary::write("a.osh", &m); Mesh q = binary::read("a.osh", w); vtk::write_vtu("a.vtu", &m, false); vtk::write_parallel("v", &m, false); }
  else if (k == 4) { Mesh m = smallmesh::make(lib, n); get_implied_metrics(&m); m.add_tag<Real>(VERT, "metric", 1, get_implied_isos(&m)); m.ask_qualities(); m.ask_lengths(); }
  else if (k == 5) { Mesh m = smallmesh::make(lib, n); m.set_parting(OMEGA_H_GHOSTED); m.set_parting(OMEGA_H_ELEM_BASED); m.balance(); reorder_by_globals(&m); }
  else { Mesh m = smallmesh::make(lib, 0, 0.25); int D = m.dim(); Write<I8> cd(m.nverts(), I8(D)); for (int d = 0; d <= D; ++d) { m.add_tag<ClassId>(d, "class_id", 1, Read<ClassId>(m.nents(d), 1)); m.add_tag<I8>(d, "class_dim", 1, Read<I8>(m.nents(d), I8(D))); } m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), n == 0 ? 1.0 : n == 1 ? 0.01 : 64.0)); AdaptOpts o(&m); o.verbosity = SILENT; o.xfer_opts.type_map.clear(); if (k == 6) { m.ask_lengths(); refine_by_size(&m, o); } else { m.ask_lengths(); coarsen_by_size(&m, o); } }
}
H(prof_ops) {
  Library lib; pf::History h; pf::global_singleton_history = &h; bool outer = choose("outer", 0, 1); if (outer) begin_code("outer"); size_t at = h.current_frame; for (int i = 0; i < param("OPS", 1); ++i) { op(choose("op", param("LO", 0), param("HI", 7)), lib); ASSERT(h.current_frame == at); } if (outer) { end_code(); ASSERT(h.current_frame == pf::invalid); ASSERT(h.first(pf::invalid) == 0 && h.next(0) == pf::invalid); } well_formed(h); pf::global_singleton_history = nullptr; REACH("ops"); }
// two ranks: distributed operations, and the report at the end does not disturb anything
static int pick; static void rank(int) {
  Library lib; auto w = lib.world(); pf::History h(w, false, 0.0, false); pf::global_singleton_history = &h; begin_code("outer"); if (pick == 0) { repro_sum(w, Reals(w->rank() ? 0 : 2, 1.0)); repro_sum(w, Reals(0, 1.0)); } else { Mesh m = build_box(w, OMEGA_H_SIMPLEX, 1, 1, 0, 2, 1, 0); ASSERT(h.current_frame == 0); if (pick == 1) { m.set_parting(OMEGA_H_GHOSTED); m.set_parting(OMEGA_H_VERT_BASED); } else if (pick == 2) { vtk::write_parallel("p", &m, false); } else { m.balance(); get_implied_isos(&m); } } ASSERT(h.current_frame == 0); end_code(); ASSERT(h.current_frame == pf::invalid); well_formed(h); pf::print_top_down_and_bottom_up(h, 1.0); pf::print_top_sorted(h, 1.0); pf::global_singleton_history = nullptr; w->barrier(); }
H(prof_ranks) { pick = choose("op", 0, 3); mpi_sim_private = (void**)&pf::global_singleton_history; mpi_sim_run(2, rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); REACH("ranks"); }
