// C28, C29: small dense linear algebra, bounding boxes, affine maps
#include "hh.hpp"
#include "Omega_h_matrix.hpp"
#include "Omega_h_eigen.hpp"
#include "Omega_h_qr.hpp"
#include "Omega_h_bbox.hpp"
#include "Omega_h_affine.hpp"
static Real v(int lo, int hi) { return osym_fint("v", lo, hi); }
template <Int n> static Vector<n> vec(int lo = -9, int hi = 9) { Vector<n> x; for (Int i = 0; i < n; ++i) x[i] = v(lo, hi); return x; }
template <Int m, Int n> static Matrix<m, n> mat(int lo = -9, int hi = 9) { Matrix<m, n> a; for (Int j = 0; j < n; ++j) for (Int i = 0; i < m; ++i) a(i, j) = v(lo, hi); return a; }
template <Int m, Int n> static void same(Matrix<m, n> const& a, Matrix<m, n> const& b) { for (Int j = 0; j < n; ++j) for (Int i = 0; i < m; ++i) ASSERT(a(i, j) == b(i, j)); }
template <Int n> static void same(Vector<n> const& a, Vector<n> const& b) { for (Int i = 0; i < n; ++i) ASSERT(a[i] == b[i]); }
template <Int m, Int p, Int n> static void products() {
  auto a = mat<m, p>(); auto b = mat<p, n>(); auto c = a * b; for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) { Real s = 0; for (Int k = 0; k < p; ++k) s += a(i, k) * b(k, j); ASSERT(c(i, j) == s); }
  auto x = vec<p>(); auto y = a * x; for (Int i = 0; i < m; ++i) { Real s = 0; for (Int k = 0; k < p; ++k) s += a(i, k) * x[k]; ASSERT(y[i] == s); }
  auto t = transpose(a); for (Int i = 0; i < m; ++i) for (Int k = 0; k < p; ++k) ASSERT(t(k, i) == a(i, k)); same(transpose(t), a);
  auto a2 = mat<m, p>(); Real s = v(-9, 9), ip = 0, mx = 0; for (Int i = 0; i < m; ++i) for (Int k = 0; k < p; ++k) { ASSERT((a + a2)(i, k) == a(i, k) + a2(i, k)); ASSERT((a - a2)(i, k) == a(i, k) - a2(i, k)); ASSERT((a * s)(i, k) == a(i, k) * s); ASSERT((s * a)(i, k) == a(i, k) * s); ASSERT((-a)(i, k) == -a(i, k)); ASSERT((a / 4.0)(i, k) == a(i, k) / 4.0); ip += a(i, k) * a2(i, k); Real ab = a(i, k) < 0 ? -a(i, k) : a(i, k); if (ab > mx) mx = ab; }
  auto q = a; q += a2; same(q, a + a2); q = a; q -= a2; same(q, a - a2); q = a; q *= s; same(q, a * s); q = a; q /= 2.0; same(q, a / 2.0);
  ASSERT(inner_product(a, a2) == ip); ASSERT(max_norm(a) == mx); auto w = vec<m>(); auto z = vec<n>(); auto o = outer_product(w, z); for (Int i = 0; i < m; ++i) for (Int j = 0; j < n; ++j) ASSERT(o(i, j) == w[i] * z[j]);
  auto mv = matrix2vector(a); same(vector2matrix<m, p>(mv), a); for (Int i = 0; i < m; ++i) for (Int k = 0; k < p; ++k) ASSERT(mv[i * p + k] == a(i, k)); auto zm = zero_matrix<m, p>(); ASSERT(max_norm(zm) == 0.0); REACH("products");
}
H(la_products111) { products<1, 1, 1>(); }
H(la_products222) { products<2, 2, 2>(); }
H(la_products333) { products<3, 3, 3>(); }
H(la_products231) { products<2, 3, 1>(); }
H(la_products312) { products<3, 1, 2>(); }
H(la_det) {
  auto a = mat<1, 1>(-99, 99); ASSERT(determinant(a) == a(0, 0)); auto b = mat<2, 2>(-99, 99); ASSERT(determinant(b) == b(0, 0) * b(1, 1) - b(0, 1) * b(1, 0));
  auto c = mat<3, 3>(-9, 9); Real d = 0; int const P[6][4] = {{0,1,2,1},{1,2,0,1},{2,0,1,1},{0,2,1,-1},{1,0,2,-1},{2,1,0,-1}}; for (auto& p : P) d += p[3] * c(0, p[0]) * c(1, p[1]) * c(2, p[2]); ASSERT(determinant(c) == d);
  Real t = 0; for (int i = 0; i < 3; ++i) t += c(i, i); ASSERT(trace(c) == t); auto dg = diagonal(c); for (int i = 0; i < 3; ++i) ASSERT(dg[i] == c(i, i)); auto dm = diagonal(dg); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ASSERT(dm(i, j) == (i == j ? dg[i] : 0.0)); auto I = identity_matrix<3, 3>(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ASSERT(I(i, j) == (i == j)); REACH("det");
}
// inverses of matrices whose determinant is a power of two are exact
template <Int n> static void inverse(int r) {
  auto a = mat<n, n>(-r, r); for (Int k = 0; k < n * n - param("FREE", 7); ++k) osym_concretize((I64)a(k % n, k / n)); I64 d = osym_concretize((I64)determinant(a)); ASSUME(d == 1 || d == -1 || d == 2 || d == -2 || d == 4 || d == -4 || d == 8);
  auto b = invert(a); same(a * b, identity_matrix<n, n>()); same(b * a, identity_matrix<n, n>()); same(pseudo_invert(a), b); REACH("inverse");
}
H(la_inverse1) { inverse<1>(8); }
H(la_inverse2) { inverse<2>(param("R", 4)); }
H(la_inverse3) { inverse<3>(1); }
H(la_cross) {
  auto a = vec<3>(), b = vec<3>(), c = cross(a, b); ASSERT(c[0] == a[1] * b[2] - a[2] * b[1]); ASSERT(c[1] == a[2] * b[0] - a[0] * b[2]); ASSERT(c[2] == a[0] * b[1] - a[1] * b[0]); same(cross(a) * b, c); same(uncross(cross(a)), a);
  auto p = vec<2>(), q = vec<2>(); ASSERT(cross(p, q) == p[0] * q[1] - p[1] * q[0]); auto pp = perp(p); ASSERT(pp * p == 0.0); ASSERT(cross(p, pp) == p * p); Real s = 0; for (int i = 0; i < 3; ++i) s += a[i] * b[i]; ASSERT(a * b == s); ASSERT(norm_squared(a) == a * a);
  auto u = positivize(a), w = positivize(-a); bool z = a[0] == 0 || a[1] == 0 || a[2] == 0; if (!z) same(u, w); bool eq = true, ng = true; for (int i = 0; i < 3; ++i) { eq &= u[i] == a[i]; ng &= u[i] == -a[i]; } ASSERT(eq || ng);
  for (int i = 0; i < 3; ++i) { ASSERT((a + b)[i] == a[i] + b[i]); ASSERT((a - b)[i] == a[i] - b[i]); ASSERT((-a)[i] == -a[i]); ASSERT((a * 3.0)[i] == 3 * a[i]); ASSERT((a / 2.0)[i] == a[i] / 2); }
  auto r4 = resize<3>(p); ASSERT(r4[0] == p[0] && r4[1] == p[1] && r4[2] == 0.0); auto r2 = resize<2>(a); ASSERT(r2[0] == a[0] && r2[1] == a[1]); REACH("cross");
}
template <Int n> static void symm() {
  auto x = vec<symm_ncomps(n)>(-999, 999); auto s = vector2symm(x); same(symm2vector(s), x); for (Int i = 0; i < n; ++i) for (Int j = 0; j < n; ++j) ASSERT(s(i, j) == s(j, i)); 
  auto t = vector2symm_inria(x); same(symm2vector_inria(t), x); Int k = 0; for (Int i = 0; i < n; ++i) for (Int j = 0; j <= i; ++j) { ASSERT(t(i, j) == x[k]); ASSERT(t(j, i) == x[k]); ++k; } ASSERT(k == symm_ncomps(n)); for (Int i = 0; i < n; ++i) ASSERT(s(i, i) == x[i]); if (n == 2) ASSERT(s(0, 1) == x[2]); if (n == 3) { ASSERT(s(0, 1) == x[3]); ASSERT(s(1, 2) == x[4]); ASSERT(s(0, 2) == x[5]); }
  LO m = (LO)osym_choose("m", 0, 2); constexpr Int nc = symm_ncomps(n); Reals a = ranged<Real>("a", m * nc, -999, 999); Reals o = symms_inria2osh(n, a), b = symms_osh2inria(n, o); ASSERT(o.size() == m * nc && b.size() == m * nc); for (LO i = 0; i < m * nc; ++i) ASSERT(b[i] == a[i]); for (LO i = 0; i < m; ++i) { same(get_symm<n>(o, i), vector2symm_inria(get_vector<nc>(a, i))); }
  Reals rp = repeat_symm(m, s); ASSERT(rp.size() == m * nc); for (LO i = 0; i < m; ++i) same(get_symm<n>(rp, i), s);
  auto A = mat<n, n>(); Reals rm = repeat_matrix(m, A); ASSERT(rm.size() == m * n * n); for (LO i = 0; i < m; ++i) same(get_matrix<n, n>(rm, i), A); Reals vs = ranged<Real>("vs", m * n, -9, 9); Reals mv = matrices_times_vectors(rm, vs, n); ASSERT(mv.size() == m * n); for (LO i = 0; i < m; ++i) same(get_vector<n>(mv, i), A * get_vector<n>(vs, i));
  Reals ms = ranged<Real>("ms", m * n * n, -9, 9); Reals mm = matrices_times_matrices(rm, ms, n); ASSERT(mm.size() == m * n * n); for (LO i = 0; i < m; ++i) same(get_matrix<n, n>(mm, i), A * get_matrix<n, n>(ms, i)); 
  Write<Real> sy(m * n * n); for (LO i = 0; i < m; ++i) set_matrix(sy, i, get_symm<n>(o, i)); Reals back = matrices_to_symms(sy, n); ASSERT(back.size() == m * nc); for (LO i = 0; i < m * nc; ++i) ASSERT(back[i] == o[i]); REACH("symm");
}
H(la_symm1) { symm<1>(); }
H(la_symm2) { symm<2>(); }
H(la_symm3) { symm<3>(); }
H(la_resize) {
  LO m = (LO)osym_choose("m", 0, 2); Reals a2 = ranged<Real>("a", m * 3, -99, 99), a3 = resize_symms(a2, 2, 3), b2 = resize_symms(a3, 3, 2); ASSERT(a3.size() == m * 6 && b2.size() == m * 3); for (LO i = 0; i < 3 * m; ++i) ASSERT(b2[i] == a2[i]); for (LO i = 0; i < m; ++i) { auto t = get_symm<3>(a3, i); for (int k = 0; k < 3; ++k) { ASSERT(t(2, k) == 0.0); ASSERT(t(k, 2) == 0.0); } }
  auto T = mat<2, 2>(); auto U = resize<3>(T); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ASSERT(U(i, j) == (i < 2 && j < 2 ? T(i, j) : 0.0)); same(resize<2>(U), T);
  for (Int od = 1; od <= 3; ++od) for (Int nd = 1; nd <= 3; ++nd) { Reals w = ranged<Real>("w", m * od, -9, 9); Reals z = resize_vectors(w, od, nd); ASSERT(z.size() == m * nd); for (LO i = 0; i < m; ++i) for (Int k = 0; k < nd; ++k) ASSERT(z[i * nd + k] == (k < od ? w[i * od + k] : 0.0)); }
  Reals p = ranged<Real>("p", m * 3, -9, 9), q = ranged<Real>("q", m * 3, -9, 9); Reals d = dot_vectors(p, q, 3); for (LO i = 0; i < m; ++i) ASSERT(d[i] == p[3 * i] * q[3 * i] + p[3 * i + 1] * q[3 * i + 1] + p[3 * i + 2] * q[3 * i + 2]); REACH("resize");
}
// sorting a decomposition keeps the pairs together and orders them
template <Int n> static void sortdd() {
  DiagDecomp<n> d; for (Int i = 0; i < n; ++i) { d.l[i] = v(-99, 99); for (Int k = 0; k < n; ++k) d.q[i][k] = 10 * i + k; } for (Int i = 0; i < n; ++i) for (Int j = 0; j < i; ++j) osym_concretize(std::abs(d.l[j]) < std::abs(d.l[i]));
  auto o = sort_by_magnitude(d); unsigned m = 0; for (Int i = 0; i < n; ++i) { int w = -1; for (Int j = 0; j < n; ++j) if (o.q[i][0] == 10 * j) w = j; ASSERT(w >= 0); m |= 1u << w; ASSERT(o.l[i] == d.l[w]); for (Int k = 0; k < n; ++k) ASSERT(o.q[i][k] == d.q[w][k]); if (i) ASSERT(std::abs(o.l[i - 1]) >= std::abs(o.l[i])); } ASSERT(m == (1u << n) - 1); REACH("sort");
}
H(la_sort2) { sortdd<2>(); }
H(la_sort3) { sortdd<3>(); }
H(la_offdiag) {
  auto a = mat<3, 3>(-20, 20); auto pq = arg_max_off_diag(a); ASSERT(0 <= pq[0] && pq[0] < pq[1] && pq[1] < 3); Real best = std::abs(a(pq[0], pq[1])), other = std::abs(a(pq[1], pq[0])); if (other > best) best = other; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) ASSERT(best >= std::abs(a(i, j)));
  auto q = characteristic_polynomial(a); ASSERT(q[2] == -trace(a)); ASSERT(q[0] == -determinant(a)); ASSERT(q[1] == a(0,0)*a(1,1)-a(0,1)*a(1,0) + a(0,0)*a(2,2)-a(0,2)*a(2,0) + a(1,1)*a(2,2)-a(1,2)*a(2,1)); auto c = subtract_from_diag(a, 3.0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ASSERT(c(i, j) == a(i, j) - (i == j ? 3.0 : 0.0)); REACH("offdiag");
}
H(la_triangular) {  // back substitution, exact for unit and power of two pivots
  Int m = (Int)osym_choose("m", 1, 3); auto a = mat<3, 3>(-4, 4); auto x = vec<3>(-4, 4); for (int i = 0; i < 3; ++i) a(i, i) = double(1 << osym_choose("p", 0, 1)) * (osym_choose("s", 0, 1) ? -1 : 1); Vector<3> b; for (int i = 0; i < 3; ++i) { b[i] = 0; for (int j = i; j < m; ++j) b[i] += a(i, j) * x[j]; } auto y = solve_upper_triangular(m, a, b); for (Int i = 0; i < m; ++i) ASSERT(y[i] == x[i]);
  REACH("triangular");
}
// ---- C29
template <Int n> static BBox<n> abox(int r = 50) { BBox<n> b; for (Int i = 0; i < n; ++i) { b.min[i] = v(-r, r); b.max[i] = v(-r, r); ASSUME(b.min[i] <= b.max[i]); } return b; }
template <Int n> static void sameb(BBox<n> a, BBox<n> b) { same(a.min, b.min); same(a.max, b.max); }
template <Int n> static void bbox() {
  int np = (int)osym_choose("np", 1, param("NP", 3)); Write<Real> c(np * n); for (LO i = 0; i < c.size(); ++i) c[i] = osym_f64("c"); for (LO i = 0; i < c.size(); ++i) ASSUME(c[i] >= -1e300 && c[i] <= 1e300);
  auto b = find_bounding_box<n>(Reals(c)); for (Int k = 0; k < n; ++k) { bool lo = false, hi = false; for (int i = 0; i < np; ++i) { Real x = c[i * n + k]; ASSERT(b.min[k] <= x); ASSERT(x <= b.max[k]); lo |= x == b.min[k]; hi |= x == b.max[k]; } ASSERT(lo); ASSERT(hi); } REACH("bbox");
}
H(bb_points1) { bbox<1>(); }
H(bb_points2) { bbox<2>(); }
H(bb_points3) { bbox<3>(); }
template <Int n> static void unites() { auto a = abox<n>(), b = abox<n>(), c = abox<n>(); auto u = unite(a, b); sameb(u, unite(b, a)); sameb(unite(a, a), a); sameb(unite(u, c), unite(a, unite(b, c))); for (Int i = 0; i < n; ++i) { ASSERT(u.min[i] <= a.min[i] && u.min[i] <= b.min[i] && u.max[i] >= a.max[i] && u.max[i] >= b.max[i]); ASSERT(u.min[i] == a.min[i] || u.min[i] == b.min[i]); ASSERT(u.max[i] == a.max[i] || u.max[i] == b.max[i]); }
  auto e = make_equilateral(a); Real L = 0; for (Int i = 0; i < n; ++i) { Real l = a.max[i] - a.min[i]; if (l > L) L = l; } for (Int i = 0; i < n; ++i) { ASSERT(e.min[i] == a.min[i]); ASSERT(e.max[i] - e.min[i] == L); } auto x = vec<n>(); BBox<n> p(x); same(p.min, x); same(p.max, x); REACH("unite"); }
H(bb_unite1) { unites<1>(); }
H(bb_unite2) { unites<2>(); }
H(bb_unite3) { unites<3>(); }
template <Int n> static void unit() { BBox<n> b; Vector<n> w; for (Int i = 0; i < n; ++i) { b.min[i] = v(-9, 9); int k = (int)osym_choose("k", 0, 3); w[i] = double(1 << k) / 2; b.max[i] = b.min[i] + w[i]; } auto a = get_affine_from_bbox_into_unit(b); same(a * b.min, zero_vector<n>()); same(a * b.max, fill_vector<n>(1.0)); Vector<n> x; for (Int i = 0; i < n; ++i) x[i] = b.min[i] + w[i] * v(-4, 8) / 4; auto y = a * x; for (Int i = 0; i < n; ++i) ASSERT((y[i] >= 0 && y[i] <= 1) == (x[i] >= b.min[i] && x[i] <= b.max[i])); REACH("unit"); }
H(bb_unit1) { unit<1>(); }
H(bb_unit2) { unit<2>(); }
H(bb_unit3) { unit<3>(); }
// affine maps with unimodular or power of two linear parts invert exactly
template <Int n> static void affine() {
  Affine<n> a; int kind = (int)osym_choose("kind", 0, n == 1 ? 0 : 1); if (kind == 0) { a.r = zero_matrix<n, n>(); for (Int i = 0; i < n; ++i) a.r(i, i) = double(1 << osym_choose("s", 0, 2)) / 2 * (osym_choose("neg", 0, 1) ? -1 : 1); } else { a.r = identity_matrix<n, n>(); Int i = (Int)osym_choose("i", 0, n - 1), j = (Int)osym_choose("j", 0, n - 2); if (j >= i) ++j; a.r(i, j) = v(-5, 5); }
  a.t = vec<n>(); auto x = vec<n>(-50, 50); auto b = invert(a); same(b * (a * x), x); same(a * (b * x), x); auto y = a * x; for (Int i = 0; i < n; ++i) { Real s = a.t[i]; for (Int j = 0; j < n; ++j) s += a.r(i, j) * x[j]; ASSERT(y[i] == s); } REACH("affine");
}
H(aff_inverse1) { affine<1>(); }
H(aff_inverse2) { affine<2>(); }
H(aff_inverse3) { affine<3>(); }
