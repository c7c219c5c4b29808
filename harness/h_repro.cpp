#include "hh.hpp"
#include "Omega_h_int128.hpp"
#include "Omega_h_comm.hpp"
#include "Omega_h_library.hpp"
#include "mpi_sim.hpp"
#include "Omega_h_linpart.hpp"
#include "Omega_h_dist.hpp"
typedef __int128 i128; typedef unsigned __int128 u128;
static i128 val(Int128 x) { return (i128)(((u128)(uint64_t)x.high << 64) | x.low); }
static Int128 any128() { int64_t h = osym_i64("h", INT64_MIN, INT64_MAX); uint64_t l = (uint64_t)osym_i64("l", INT64_MIN, INT64_MAX); return Int128(h, l); }
H(int128_ops) {
  Int128 a = any128(), b = any128(), c = any128();
  ASSERT(val(a + b) == (i128)((u128)val(a) + (u128)val(b))); ASSERT(val(a - b) == (i128)((u128)val(a) - (u128)val(b))); ASSERT(val(-a) == (i128)(-(u128)val(a)));
  ASSERT((a < b) == (val(a) < val(b))); ASSERT((a == b) == (val(a) == val(b)));
  ASSERT(val((a + b) + c) == val(a + (b + c))); ASSERT(val(a + b) == val(b + a)); ASSERT(val((a + b) - b) == val(a));
  int64_t v = osym_i64("v", INT64_MIN, INT64_MAX); ASSERT(val(Int128(v)) == (i128)v);
  REACH("ops");
}
H(int128_shift) { Int128 a = any128(); int k = (int)osym_choose("k", 1, 63); ASSERT(val(a >> k) == (val(a) >> k)); REACH("shift"); }
H(int128_double) {  // conversions are exact wherever the value is representable
  int64_t v = osym_i64("v", -((int64_t)1 << 53) + 1, ((int64_t)1 << 53) - 1); int k = (int)osym_choose("k", -3, 3); double unit = k < 0 ? 1.0 / double(1 << -k) : double(1 << k);
  double d = Int128(v).to_double(unit); ASSERT(d == double(v) * unit);
  Int128 r = Int128::from_double(double(v) * unit, unit); ASSERT(val(r) == (i128)v);
  // large values: powers of two times a short mantissa survive
  int64_t m = osym_i64("m", -1000, 1000); int s = 53 + 11 * (int)osym_choose("s", 0, 4); i128 big = (i128)m * ((i128)1 << s); Int128 B((int64_t)(big >> 64), (uint64_t)big); double e = B.to_double(1.0); double want = double(m); for (int i = 0; i < s; ++i) want *= 2; ASSERT(e == want);
  REACH("conv");
}
static double anydouble(int e) { uint64_t m = (uint64_t)osym_i64("m", 0, ((int64_t)1 << 52) - 1), s = (uint64_t)osym_i32("s", 0, 1), b = (s << 63) | ((uint64_t)(e + 1023) << 52) | m; double d; __builtin_memcpy(&d, &b, 8); return d; }
// the order of the values does not matter, for values of any sign and mantissa and several magnitudes
static Reals pick(int n, int spread) { Write<Real> w(n); int e0 = (int)osym_choose("e0", 0, 2); static int const base[3] = {0, 300, -300}; for (int i = 0; i < n; ++i) { int k = (int)osym_choose("e", 0, spread); w[i] = k == spread ? 0.0 : anydouble(base[e0] - k * 17); } return w; }
H(repro_order) {
  int n = param("N", 3); Reals a = pick(n, param("SPREAD", 3)); Real s = repro_sum(a); int nperm = n == 2 ? 2 : n == 3 ? 6 : 24;
  static int const perms[24][4] = {{0,1,2,3},{1,0,2,3},{0,2,1,3},{2,0,1,3},{1,2,0,3},{2,1,0,3},{0,1,3,2},{1,0,3,2},{0,3,1,2},{3,0,1,2},{1,3,0,2},{3,1,0,2},{0,2,3,1},{2,0,3,1},{0,3,2,1},{3,0,2,1},{2,3,0,1},{3,2,0,1},{1,2,3,0},{2,1,3,0},{1,3,2,0},{3,1,2,0},{2,3,1,0},{3,2,1,0}};
  for (int p = 1; p < nperm; ++p) { Write<Real> b(n); for (int i = 0; i < n; ++i) b[i] = a[n == 2 ? 1 - i : perms[p][i]]; ASSERT(osym_dbits(repro_sum(b)) == osym_dbits(s)); }
  osym_observe_f64("s", s); REACH("order");
}
// the sum is the exact sum of the values truncated to 2^(e-52), e the exponent of the largest
H(repro_accuracy) {
  int n = 2; int sp = param("SPREAD", 3); Write<Real> a(n); int k[2]; uint64_t m[2], sg[2]; int emax = -100000; 
  for (int i = 0; i < n; ++i) { k[i] = (int)osym_choose("e", 0, sp) * 13; m[i] = (uint64_t)osym_i64("m", 0, ((int64_t)1 << 52) - 1); sg[i] = (uint64_t)osym_choose("s", 0, 1); uint64_t b = (sg[i] << 63) | ((uint64_t)(1023 - k[i]) << 52) | m[i]; double d; __builtin_memcpy(&d, &b, 8); a[i] = d; if (-k[i] > emax) emax = -k[i]; }
  Real s = repro_sum(Reals(a));
  // unit = 2^(emax+1-52); the largest has 52 bits above it
  int64_t T = 0; for (int i = 0; i < n; ++i) { int64_t mm = (int64_t)((m[i] | ((uint64_t)1 << 52)) >> (1 + emax + k[i])); T += sg[i] ? -mm : mm; }
  double u = 1.0; for (int i = 0; i < 51 - emax; ++i) u *= 0.5;
  ASSERT(s == double(T) * u); osym_observe_f64("s", s); REACH("acc");
}
H(repro_small) {  // integers of one scale sum exactly
  int n = size_upto("N", 3); Reals a = chosen<Real>("a", n, -3, 3); 
  Real want = 0; for (int i = 0; i < n; ++i) want += a[i];
  ASSERT(repro_sum(a) == want); REACH("small");
}
// any split over ranks gives the sum of the whole
static Write<Real>* gAll; static int gCut[3]; static int gN; static uint64_t gSerial; 
static void rank_main(int rank) {
  Library lib; CommPtr comm = lib.world(); int lo = gCut[rank], hi = rank + 1 < comm->size() ? gCut[rank + 1] : gN;
  Write<Real> mine(hi - lo); for (int i = lo; i < hi; ++i) mine[i - lo] = (*gAll)[i];
  Real s = repro_sum(comm, Reals(mine)); ASSERT(osym_dbits(s) == gSerial);
  Real r2[1]; repro_sum(comm, Reals(mine), 1, r2); ASSERT(osym_dbits(r2[0]) == gSerial);
}
H(repro_split) {
  int n = param("N", 3), nr = (int)osym_choose("ranks", 1, param("R", 3)); Reals a = pick(n, 2); Write<Real> all = deep_copy(a); gAll = &all; gN = n; gCut[0] = 0; for (int r = 1; r < nr; ++r) gCut[r] = (int)osym_choose("cut", gCut[r - 1], n);
  gSerial = osym_dbits(repro_sum(a)); mpi_sim_eager = (int)osym_choose("eager", 0, 1); mpi_sim_run(nr, rank_main); REACH("split");
}
static GO anytotal(int p) { static GO const big[8] = {1000, 2147483647, 2147483648ll, 4294967297ll, 6000000001ll, 8589934590ll, 99999999, 65537}; GO t = osym_choose("total", 0, param("T", 30) + 7); if (t > param("T", 30) - 1) t = big[t - param("T", 30)]; ASSUME(t / p < 2147483647); return t; }
H(linpart_sizes) {  // C07
  int p = (int)osym_choose("p", 1, param("P", 6)); GO total = anytotal(p); 
  GO sum = 0; LO mn = INT32_MAX, mx = 0; for (int r = 0; r < p; ++r) { LO s = linear_partition_size(total, p, r); ASSERT(s >= 0); if (r) ASSERT(s <= linear_partition_size(total, p, r - 1)); sum += s; if (s < mn) mn = s; if (s > mx) mx = s; }
  ASSERT(sum == total); ASSERT(mx - mn <= 1); 
  // and any rank of any communicator
  int big = osym_i32("rank", 0, INT32_MAX - 1); LO s = linear_partition_size(total, INT32_MAX, big); ASSERT(s == total / INT32_MAX + (big < total % INT32_MAX)); REACH("sizes");
}
H(linpart_owner) {
  int p = (int)osym_choose("p", 1, param("P", 5)); GO total = anytotal(p); GO g = osym_i64("g", 0, (GO)1 << 40); ASSUME(g < total); if (total == 0) return;
  Remotes o = globals_to_linear_owners(GOs(1, g), total, p); I32 r = o.ranks[0]; LO i = o.idxs[0];
  ASSERT(0 <= r && r < p); GO before = 0; LO mine = 0; for (int q = 0; q < p; ++q) { LO s = linear_partition_size(total, p, q); if (q < r) before += s; if (q == r) mine = s; }
  ASSERT(0 <= i && i < mine); ASSERT(before + i == g); REACH("owner");
}
static GO gTot, gG[4];
static void lin_rank(int rank) {
  Library lib; CommPtr comm = lib.world(); 
  Write<GO> mine(2); mine[0] = gG[rank * 2]; mine[1] = gG[rank * 2 + 1]; GO want = -1; for (int i = 0; i < 2 * comm->size(); ++i) if (gG[i] > want) want = gG[i];
  GO t = find_total_globals(comm, GOs(mine)); ASSERT(t == want + 1); ASSERT(find_total_globals(comm, GOs(mine)) == t);
  ASSERT(linear_partition_size(comm, t) == linear_partition_size(t, comm->size(), rank));
  Dist d = copies_to_linear_owners(comm, GOs(mine)); GOs back = d.exch(GOs(mine), 1); LO ns = linear_partition_size(comm, t); GO first = 0; for (int q = 0; q < rank; ++q) first += linear_partition_size(t, comm->size(), q);
  LOs r2i = d.invert().roots2items(); int k = 0; 
  if (r2i.exists()) { ASSERT(r2i.size() == ns + 1); ASSERT(r2i[ns] == back.size()); for (LO s = 0; s < ns; ++s) for (LO j = r2i[s]; j < r2i[s + 1]; ++j) ASSERT(back[j] == first + s); } else { ASSERT(back.size() == ns); for (LO s = 0; s < ns; ++s) ASSERT(back[s] == first + s); }
  for (int i = 0; i < 2 * comm->size(); ++i) if (gG[i] >= first && gG[i] < first + ns) ++k; ASSERT(k == back.size());
}
H(linpart_dist) { int nr = (int)osym_choose("ranks", 1, 2); for (int i = 0; i < 2 * nr; ++i) gG[i] = osym_choose("g", 0, param("G", 3)); mpi_sim_run(nr, lin_rank); REACH("dist"); }
