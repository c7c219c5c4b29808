// C33 (random streams)
#include "hh.hpp"
#include "Omega_h_random.hpp"
#include "Omega_h_random_inline.hpp"
typedef uint64_t u64; typedef uint32_t u32;
static u64 any64(char const* n) { return (u64)osym_i64(n, INT64_MIN, INT64_MAX); }
// distinct counters give distinct blocks: the block function is undone by its inverse
H(philox_inverse) {
  u64 key = any64("key"); Few<u64, 2> c; c[0] = any64("c0"); c[1] = any64("c1"); Few<u64, 2> r = run_philox_cbrng(c, key);
  u32 x[4] = {(u32)r[0], (u32)(r[0] >> 32), (u32)r[1], (u32)(r[1] >> 32)}; u32 k0 = (u32)key + 9u * 0x9E3779B9u, k1 = (u32)(key >> 32) + 9u * 0xBB67AE85u;
  u32 const M0 = 0xD2511F53u, M1 = 0xCD9E8D57u; u32 I0 = M0, I1 = M1; for (int i = 0; i < 5; ++i) { I0 *= 2 - M0 * I0; I1 *= 2 - M1 * I1; }
  for (int i = 0; i < 10; ++i) { // x0' = hi(M1 x2) ^ x1 ^ k0, x1' = lo(M1 x2), x2' = hi(M0 x0) ^ x3 ^ k1, x3' = lo(M0 x0)
    u32 p2 = x[1] * I1, p0 = x[3] * I0; u32 p1 = x[0] ^ (u32)(((u64)M1 * p2) >> 32) ^ k0, p3 = x[2] ^ (u32)(((u64)M0 * p0) >> 32) ^ k1; x[0] = p0; x[1] = p1; x[2] = p2; x[3] = p3; k0 -= 0x9E3779B9u; k1 -= 0xBB67AE85u; }
  ASSERT((x[0] | (u64)x[1] << 32) == c[0]); ASSERT((x[2] | (u64)x[3] << 32) == c[1]); osym_observe("r0", r[0]); REACH("inverse");
}
// known answers of the published generator
H(philox_known) {
  Few<u64, 2> z; z[0] = z[1] = 0; Few<u64, 2> r = run_philox_cbrng(z, 0); ASSERT(r[0] == 0xa2b20f226627e8d5ull || (u32)r[0] == 0x6627e8d5u); ASSERT((u32)(r[0] >> 32) == 0xe169c58du); ASSERT((u32)r[1] == 0xbc57ac4cu); ASSERT((u32)(r[1] >> 32) == 0x9b00dbd8u);
  Few<u64, 2> f; f[0] = f[1] = ~0ull; r = run_philox_cbrng(f, ~0ull); ASSERT((u32)r[0] == 0x408f276du); ASSERT((u32)(r[0] >> 32) == 0x41c83b0eu); ASSERT((u32)r[1] == 0xa20bc7c6u); ASSERT((u32)(r[1] >> 32) == 0x6d5451fdu); REACH("known");
}
// a stream entered at counter c continues the stream entered before
H(stream_seek) {
  I64 seed = (I64)any64("seed"), key = (I64)any64("key"); int c0 = (int)osym_choose("c0", 0, 5), n = (int)osym_choose("n", 0, 4); I64 base = osym_choose("base", 0, 1) ? (I64)1 << 40 : 0;
  UnitUniformDistribution a(seed, key, base + c0); for (int i = 0; i < n; ++i) a(); Real x = a(), y = a(); UnitUniformDistribution b(seed, key, base + c0 + n); Real p = b(), q = b(); ASSERT(osym_dbits(x) == osym_dbits(p)); ASSERT(osym_dbits(y) == osym_dbits(q));
  // and each deviate is its own 64 bits of the block
  I64 c = base + c0 + n; Few<u64, 2> ctr; ctr[0] = (u64)c >> 1; ctr[1] = (u64)seed; Few<u64, 2> blk = run_philox_cbrng(ctr, (u64)key); ASSERT(osym_dbits(x) == osym_dbits(unit_uniform_deviate_from_uint64(blk[c & 1]))); REACH("seek");
}
H(unit_range) { u64 x = any64("x"); Real d = unit_uniform_deviate_from_uint64(x); ASSERT(d >= 0.0); ASSERT(d <= 1.0); osym_observe_f64("d", d); REACH("range"); }
H(unit_monotone) { u64 x = any64("x"), y = any64("y"); ASSUME(x <= y); ASSERT(unit_uniform_deviate_from_uint64(x) <= unit_uniform_deviate_from_uint64(y)); ASSERT(unit_uniform_deviate_from_uint64(0) == 0.0); ASSERT(unit_uniform_deviate_from_uint64(~0ull) == 1.0); REACH("monotone"); }
// one value per item, a function of its global number only
H(globals_random) {
  int n = size_upto("N", 3); GOs g = anys<GO>("g", n); I64 seed = (I64)any64("seed"); I64 counter = osym_choose("counter", 0, 3); Reals r = unit_uniform_random_reals_from_globals(g, seed, counter); ASSERT(r.size() == n);
  for (int i = 0; i < n; ++i) { UnitUniformDistribution d(seed, g[i], counter); ASSERT(osym_dbits(r[i]) == osym_dbits(d())); } REACH("globals");
}
// a normal deviate takes the same number of uniform deviates whatever their values
H(normal_draws) {
  I64 seed = (I64)any64("seed"), key = (I64)any64("key"); int c0 = (int)osym_choose("c0", 0, 1); UnitUniformDistribution u(seed, key, c0), w(seed, key, c0); StandardNormalDistribution s; s(u); w(); w(); ASSERT(osym_dbits(u()) == osym_dbits(w())); REACH("normal");
}
