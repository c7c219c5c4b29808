#include "small.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_bipart.hpp"
#include "Omega_h_inertia.hpp"
#include "Omega_h_dist.hpp"
#include "Omega_h_array_ops.hpp"
#include <algorithm>
// ---- C40: recursive bisection
static int choose(char const* n, int lo, int hi) { return (int)osym_choose(n, lo, hi); }
enum { MR = 4, MI = 4 };
static int P, cnt[MR], mark[MR][MI], got_n[MR], got[MR][16]; static int64_t val[MR][MI], got_v[MR][16];
// marked items go to the second half of the ranks, the others to the first, in order, none lost
static void marks_rank(int me) {
  Library lib; auto w = lib.world(); Write<I8> m(cnt[me]); Write<I64> v(cnt[me] * 2); for (int i = 0; i < cnt[me]; ++i) { m[i] = (I8)mark[me][i]; v[2 * i] = me * MI + i; v[2 * i + 1] = val[me][i]; } Dist d = bi_partition(w, Read<I8>(m)); auto r = d.exch(Read<I64>(v), 2); got_n[me] = r.size() / 2; ASSERT(got_n[me] <= 16); for (int i = 0; i < got_n[me]; ++i) { got[me][i] = (int)r[2 * i]; got_v[me][i] = r[2 * i + 1]; } w->barrier(); }
H(bis_marks) {
  P = param("P", 2); for (int r = 0; r < P; ++r) { cnt[r] = choose("count", 0, param("N", 2)); for (int i = 0; i < cnt[r]; ++i) { mark[r][i] = choose("mark", 0, 1); val[r][i] = osym_i64("payload", INT64_MIN, INT64_MAX); } } mpi_sim_run(P, marks_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0);
  for (int half = 0; half < 2; ++half) { std::vector<int> want, have; std::vector<int64_t> wv, hv; for (int r = 0; r < P; ++r) for (int i = 0; i < cnt[r]; ++i) if (mark[r][i] == half) { want.push_back(r * MI + i); wv.push_back(val[r][i]); } int lo = 1 << 30, hi = 0; for (int r = half * P / 2; r < (half + 1) * P / 2; ++r) { lo = std::min(lo, got_n[r]); hi = std::max(hi, got_n[r]); for (int i = 0; i < got_n[r]; ++i) { have.push_back(got[r][i]); hv.push_back(got_v[r][i]); } } ASSERT(have == want); int ok = 1; for (size_t i = 0; i < wv.size(); ++i) ok &= int(wv[i] == hv[i]); ASSERT(ok); ASSERT(hi - lo <= 1); } REACH("marks"); }
// one cut through points on an axis: the two sides are separated along the axis and weigh the same to within the tolerance
H(bis_cut) {
  Library lib; int n = choose("n", 1, param("N", 4)), ax = choose("axis", 0, 2), neg = choose("flip", 0, 1); std::vector<int> x(n), wt(n); Write<Real> c(3 * n), m(n); int total = 0, big = 0; bool tie = false; for (int i = 0; i < n; ++i) { x[i] = choose("x", 0, param("X", 4)); wt[i] = choose("weight", 1, param("W", 2)); total += wt[i]; big = std::max(big, wt[i]); for (int j = 0; j < i; ++j) if (x[j] == x[i]) tie = true; for (int k = 0; k < 3; ++k) c[3 * i + k] = k == ax ? Real(neg ? -x[i] : x[i]) * 0.5 : 1.0; m[i] = Real(wt[i]); }
  Vector<3> axis = zero_vector<3>(); axis[ax] = 1; auto r = param("GIVEN", 1) ? inertia::mark_bisection_given_axis(lib.world(), Reals(c), Reals(m), Real(big), axis) : inertia::mark_bisection(lib.world(), Reals(c), Reals(m), Real(big), axis); ASSERT(r.size() == n); int half = 0; for (int i = 0; i < n; ++i) { ASSERT(r[i] == 0 || r[i] == 1); half += r[i] * wt[i]; }
  if (!tie) { ASSERT(std::abs(2 * half - total) <= 2 * big); bool up = true, down = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (r[i] && !r[j]) { if (x[i] < x[j]) up = false; else down = false; } ASSERT(up || down); } REACH("cut"); }
// recursive bisection over the ranks: elements are kept, and their weights and owners travel with them
static int px[MR][MI], pw[MR][MI]; static bool hinted; static int tot[MR];
static void recur_rank(int me) {
  Library lib; auto w = lib.world(); int n = cnt[me]; Write<Real> c(3 * n), m(n); Write<I32> r(n); Write<LO> ix(n); for (int i = 0; i < n; ++i) { c[3 * i] = px[me][i]; c[3 * i + 1] = 0; c[3 * i + 2] = 0; m[i] = pw[me][i]; r[i] = me; ix[i] = i; } Reals C(c), M(m); Remotes own{Read<I32>(r), LOs(ix)}; inertia::Rib hints; Vector<3> X = zero_vector<3>(); X[0] = 1; if (hinted) for (int k = 1; k < P; k *= 2) hints.axes.push_back(X); int big = 0; for (int q = 0; q < P; ++q) for (int i = 0; i < cnt[q]; ++i) big = std::max(big, pw[q][i]); inertia::recursively_bisect(w, Real(2 * big), &C, &M, &own, &hints); int k = own.ranks.size(); ASSERT(own.idxs.size() == k && M.size() == k && C.size() == 3 * k); got_n[me] = k; for (int i = 0; i < k; ++i) { int q = own.ranks[i], j = own.idxs[i]; ASSERT(q >= 0 && q < P && j >= 0 && j < cnt[q]); got[me][i] = q * MI + j; ASSERT(M[i] == pw[q][j] && C[3 * i] == px[q][j]); }
  int axes = 0; for (int z = 1; z < P; z *= 2) ++axes; ASSERT((int)hints.axes.size() == axes); w->barrier(); }
H(bis_recur) {
  P = param("P", 2); hinted = param("HINTED", 1); int n = 0, total = 0, big = 0; bool tie = false; std::vector<int> xs; for (int r = 0; r < P; ++r) { cnt[r] = choose("count", 0, param("N", 2)); n += cnt[r]; for (int i = 0; i < cnt[r]; ++i) { px[r][i] = param("FIX", 0) ? (3 * r + 5 * i) % 8 : choose("x", 0, 3); pw[r][i] = choose("weight", 1, param("W", 2)); total += pw[r][i]; big = std::max(big, pw[r][i]); for (int v : xs) if (v == px[r][i]) tie = true; xs.push_back(px[r][i]); } } if (!n) { osym_assume(0); return; }
  mpi_sim_run(P, recur_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); std::vector<int> seen; for (int r = 0; r < P; ++r) for (int i = 0; i < got_n[r]; ++i) seen.push_back(got[r][i]); ASSERT((int)seen.size() == n); std::sort(seen.begin(), seen.end()); for (size_t i = 1; i < seen.size(); ++i) ASSERT(seen[i] != seen[i - 1]);
  if (!tie) { int h = 0; for (int r = 0; r < P / 2; ++r) for (int i = 0; i < got_n[r]; ++i) h += pw[got[r][i] / MI][got[r][i] % MI]; ASSERT(std::abs(2 * h - total) <= 4 * big); } REACH("recur"); }
// a whole mesh
static int shape; static int64_t tagv[8];
static void mesh_rank(int) {
  Library lib; auto w = lib.world(); Mesh m = build_box(w, shape & 1 ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, 4, 1, 0, shape & 1 ? 4 : 3, 1, 0); int n0 = (int)m.nglobal_ents(2); auto g = m.globals(2); Write<I64> v(g.size()); for (LO i = 0; i < g.size(); ++i) v[i] = tagv[g[i]]; m.add_tag<I64>(2, "v", 1, Read<I64>(v)); auto c0 = average_field(&m, 2, 2, m.coords()); m.add_tag<Real>(2, "centre", 2, c0); if (shape & 2) m.add_tag<Real>(VERT, "metric", 1, Reals(m.nverts(), 1.0));
  m.balance((shape & 2) != 0); ASSERT(m.parting() == OMEGA_H_ELEM_BASED); ASSERT((int)m.nglobal_ents(2) == n0); GO mine = m.nelems(), all = w->allreduce(mine, OMEGA_H_SUM); ASSERT(all == n0); GO mn = w->allreduce(mine, OMEGA_H_MIN), mx = w->allreduce(mine, OMEGA_H_MAX); ASSERT(mx - mn <= 4); auto h = m.globals(2); auto u = m.get_array<I64>(2, "v"); int ok = 1; for (LO i = 0; i < h.size(); ++i) { ok &= int(u[i] == tagv[h[i]]); if (i) ASSERT(h[i] > h[i - 1]); } ASSERT(ok); auto c1 = average_field(&m, 2, 2, m.coords()), k = m.get_array<Real>(2, "centre"); for (LO i = 0; i < c1.size(); ++i) ASSERT(std::abs(c1[i] - k[i]) < 1e-9); GO s = 0; for (LO i = 0; i < h.size(); ++i) s += GO(1) << h[i]; ASSERT(w->allreduce(s, OMEGA_H_SUM) == (GO(1) << n0) - 1); w->barrier(); }
H(bis_mesh) { P = param("P", 2); shape = choose("shape", 0, param("SHAPES", 3)); for (auto& t : tagv) t = osym_i64("tag", INT64_MIN, INT64_MAX); mpi_sim_run(P, mesh_rank); ASSERT(mpi_sim_live_requests() == 0 && mpi_sim_unreceived() == 0); REACH("mesh"); }
