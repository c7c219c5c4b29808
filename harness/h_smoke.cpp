#include "osym.h"
#include "Omega_h_library.hpp"
#include "Omega_h_build.hpp"
#include "Omega_h_mesh.hpp"
#include "Omega_h_refine.hpp"
#include "Omega_h_metric.hpp"
#include "Omega_h_adapt.hpp"
#include "Omega_h_array_ops.hpp"
using namespace Omega_h;
extern "C" void smoke_build() {
  Library lib;
  int n = (int)osym_param("N", 1);
  Mesh mesh = build_box(lib.world(), OMEGA_H_SIMPLEX, 1, 1, osym_param("D", 2) == 3 ? 1 : 0, n, n, osym_param("D", 2) == 3 ? n : 0);
  osym_print("ntris", mesh.nents(2));
  ASSERT(mesh.nedges() > 4);
  REACH("built");
}
extern "C" void smoke_refine() {
  Library lib;
  int n = (int)osym_param("N", 1);
  Mesh mesh = build_box(lib.world(), OMEGA_H_SIMPLEX, 1, 1, osym_param("D", 2) == 3 ? 1 : 0, n, n, osym_param("D", 2) == 3 ? n : 0);
  mesh.add_tag<Real>(VERT, "metric", 1, Reals(mesh.nverts(), 1.0));
  int ne = mesh.nedges();
  Write<Real> len(ne);
  for (int i = 0; i < ne; ++i) len[i] = (double)osym_choose("len", 0, 1);
  mesh.add_tag<Real>(EDGE, "length", 1, len);
  AdaptOpts opts(&mesh);
  opts.verbosity = SILENT;
  opts.max_length_desired = 0.5;
  opts.min_quality_allowed = 0.0;
  bool r = refine_by_size(&mesh, opts);
  osym_observe("r", r);
  osym_observe("ntris", mesh.nents(2));
  if (r) REACH("refined");
}
