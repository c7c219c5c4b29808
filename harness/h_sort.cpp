#include "hh.hpp"
#include "Omega_h_sort.hpp"
template <class T> static int cmp(T const* k, int w, LO a, LO b) {  // -1, 0, 1 without branching
  int r = 0;
  for (int i = w - 1; i >= 0; --i) { T x = k[a * w + i], y = k[b * w + i]; int lt = x < y, eq = x == y; r = lt ? -1 : (eq ? r : 1); }
  return r;
}
template <class T> static void check(int w, int n) {
  Read<T> keys = anys<T>("k", n * w);
  LOs perm = sort_by_keys(keys, w);
  ASSERT(perm.size() == n);
  int seen = 0;
  for (int i = 0; i < n; ++i) { ASSERT(perm[i] >= 0 && perm[i] < n); seen |= 1 << perm[i]; }
  ASSERT(seen == (1 << n) - 1);
  for (int i = 0; i + 1 < n; ++i) { int c = cmp(keys.data(), w, perm[i], perm[i + 1]); ASSERT(c < 0 || (c == 0 && perm[i] < perm[i + 1])); }
  obs("perm", perm);
  if (n > 1) REACH("sorted");
}
H(sort_lo) { int w = (int)osym_choose("w", 1, param("W", 3)); check<LO>(w, size_upto("N", 3)); }
H(sort_go) { int w = (int)osym_choose("w", 1, param("W", 3)); check<GO>(w, size_upto("N", 3)); }
H(sort_long) { check<LO>(1, param("N", 5)); }
// more elements than std::stable_sort's insertion-sort chunk, keys from {0,1}, a fixed pattern with a few free keys
H(sort_big) {
  int n = param("N", 20), f = param("F", 5);
  Write<LO> k(n); for (int i = 0; i < n; ++i) k[i] = (i * 7 + 3) % 4;
  for (int i = 0; i < f; ++i) k[(i * 5 + 2) % n] = osym_i32("k", -1, 4);
  LOs keys(k); LOs perm = sort_by_keys(keys, 1);
  ASSERT(perm.size() == n); Write<LO> seen(n, 0);
  for (int i = 0; i < n; ++i) { ASSERT(perm[i] >= 0 && perm[i] < n); ASSERT(!seen[perm[i]]); seen[perm[i]] = 1; }
  for (int i = 0; i + 1 < n; ++i) ASSERT(keys[perm[i]] < keys[perm[i + 1]] || (keys[perm[i]] == keys[perm[i + 1]] && perm[i] < perm[i + 1]));
  REACH("sorted");
}
H(sort_small) {
  int n = size_upto("N", 4); if (n == 0) return;
  Read<I32> v = ranged<I32>("v", n, -2, 3);
  LOs perm, fan; Read<I32> uniq;
  sort_small_range(v, &perm, &fan, &uniq);
  int nu = uniq.size();
  ASSERT(perm.size() == n); ASSERT(fan.size() == nu + 1); ASSERT(fan[0] == 0); ASSERT(fan[nu] == n);
  for (int u = 0; u < nu; ++u) { ASSERT(fan[u] < fan[u + 1]); if (u) ASSERT(uniq[u - 1] < uniq[u]); }
  int seen = 0;
  for (int i = 0; i < n; ++i) {
    ASSERT(perm[i] >= 0 && perm[i] < n); seen |= 1 << perm[i];
    for (int u = 0; u < nu; ++u) if (fan[u] <= perm[i] && perm[i] < fan[u + 1]) ASSERT(uniq[u] == v[i]);
    for (int j = 0; j < i; ++j) ASSERT(!(v[j] == v[i]) || perm[j] < perm[i]);
  }
  ASSERT(seen == (1 << n) - 1);
  obs("perm", perm); obs("uniq", uniq);
  REACH("small");
}
