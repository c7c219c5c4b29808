// C27: the Hilbert curve
#include "hh.hpp"
#include "Omega_h_hilbert.hpp"
using namespace Omega_h::hilbert;
static coord_t axis(int b) { return (coord_t)osym_i64("X", 0, ((int64_t)1 << b) - 1); }
static coord_t index_of(coord_t const* X0, int b, int n) { coord_t X[3], Y[3]; for (int i = 0; i < n; ++i) X[i] = X0[i]; AxestoTranspose(X, b, n); untranspose(X, Y, b, n); coord_t h = 0; for (int i = 0; i < n; ++i) { ASSERT(Y[i] < ((coord_t)1 << b)); h = (h << b) | Y[i]; } return h; }
H(hil_inverse) {
  int n = (int)osym_choose("n", 1, 3), b = param("B", 6); b = (int)osym_choose("b", 1, b); coord_t X[3], Y[3]; for (int i = 0; i < n; ++i) Y[i] = X[i] = axis(b); AxestoTranspose(Y, b, n); for (int i = 0; i < n; ++i) ASSERT(Y[i] < ((coord_t)1 << b)); TransposetoAxes(Y, b, n); for (int i = 0; i < n; ++i) ASSERT(Y[i] == X[i]);
  for (int i = 0; i < n; ++i) Y[i] = X[i]; TransposetoAxes(Y, b, n); for (int i = 0; i < n; ++i) ASSERT(Y[i] < ((coord_t)1 << b)); AxestoTranspose(Y, b, n); for (int i = 0; i < n; ++i) ASSERT(Y[i] == X[i]); REACH("inverse");
}
H(hil_untranspose) {  // bit i of the distance is bit i/n of word i%n
  int n = (int)osym_choose("n", 1, 3), b = param("B", 20); coord_t in[3], out[3]; for (int i = 0; i < n; ++i) in[i] = axis(b); untranspose(in, out, b, n); 
  int k = (int)osym_choose("k", 0, b * n - 1); ASSERT(((out[k / b] >> (b - 1 - k % b)) & 1) == ((in[k % n] >> (b - 1 - k / n)) & 1)); for (int i = 0; i < n; ++i) ASSERT(out[i] < ((coord_t)1 << b)); REACH("untranspose");
}
// consecutive indices are neighbouring cells; different cells have different indices
H(hil_adjacent) {
  int n = (int)osym_choose("n", 1, 3), b = (int)osym_choose("b", 1, n == 3 ? param("B3", 3) : param("B2", 4)); coord_t X[3], Y[3]; for (int i = 0; i < n; ++i) X[i] = axis(b); for (int i = 0; i < n; ++i) Y[i] = axis(b); 
  coord_t hx = index_of(X, b, n), hy = index_of(Y, b, n); bool same = true; coord_t dist = 0; for (int i = 0; i < n; ++i) { same &= X[i] == Y[i]; dist += X[i] > Y[i] ? X[i] - Y[i] : Y[i] - X[i]; }
  ASSERT((hx == hy) == same); ASSERT(!(hy == hx + 1 && dist != 1)); bool zero = true; for (int i = 0; i < n; ++i) zero &= X[i] == 0; ASSERT((hx == 0) == zero); REACH("adjacent");
}
H(hil_prefix) { int n = (int)osym_choose("n", 1, 3), b = (int)osym_choose("b", 2, param("B", 5)); coord_t X[3], Y[3]; for (int i = 0; i < n; ++i) { X[i] = axis(b); Y[i] = X[i] >> 1; } ASSERT((index_of(X, b, n) >> n) == index_of(Y, b - 1, n)); REACH("prefix"); }
template <Int dim> static void spatial() {
  int nb = param("NB", 3); Affine<dim> a; a.r = identity_matrix<dim, dim>(); a.t = zero_vector<dim>(); Vector<dim> p; coord_t X[3]; 
  for (int i = 0; i < dim; ++i) { int k = osym_i32("k", -20, 20 + (8 << nb)); p[i] = double(k) / double(8 << nb); int c = k < 0 ? 0 : k >> 3; X[i] = c >= (1 << nb) ? (1 << nb) - 1 : c; }
  auto h = from_spatial<dim>(a, nb, p); coord_t got = 0; for (int i = 0; i < dim; ++i) got = (got << nb) | h[i]; ASSERT(got == index_of(X, nb, dim)); REACH("spatial");
}
H(hil_spatial1) { spatial<1>(); }
H(hil_spatial2) { spatial<2>(); }
H(hil_spatial3) { spatial<3>(); }
// sorting points: a permutation that does not depend on how they were numbered, ordered by the curve
H(hil_sort) {
  int dim = (int)osym_choose("dim", 1, 3), n = param("N", 3); int g = dim == 1 ? 4 : dim == 2 ? 3 : 2; int cell[4]; int cells = dim == 1 ? g : dim == 2 ? g * g : g * g * g; for (int i = 0; i < n; ++i) { cell[i] = (int)osym_choose("cell", i ? cell[i - 1] + 1 : 0, cells - 1); ASSUME(cell[i] < cells); if (i && cell[i] <= cell[i - 1]) return; if (cell[i] + 1 > cells - 1 && i + 1 < n) return; }
  auto pts = [&](int const* ord) { Write<Real> c(n * dim); for (int i = 0; i < n; ++i) { int q = cell[ord[i]]; for (int d = 0; d < dim; ++d) { c[i * dim + d] = q % g + 0.5; q /= g; } } return Reals(c); };
  int id[4] = {0, 1, 2, 3}, pe[4] = {0, 1, 2, 3}; for (int i = n - 1; i > 0; --i) { int j = (int)osym_choose("swap", 0, i); int t = pe[i]; pe[i] = pe[j]; pe[j] = t; }
  LOs a = sort_coords(pts(id), dim), b = sort_coords(pts(pe), dim); ASSERT(a.size() == n && b.size() == n); unsigned m = 0; for (int i = 0; i < n; ++i) { ASSERT(0 <= a[i] && a[i] < n); m |= 1u << a[i]; ASSERT(pe[b[i]] == a[i]); } ASSERT(m == (1u << n) - 1); REACH("sort");
}
