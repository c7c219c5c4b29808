#include "hh.hpp"
#include "Omega_h_reduce.hpp"
template <class T> static T anyv() { return Sym<T>::any("v"); }
template <> Real anyv<Real>() { return Sym<Real>::in("v", -1000, 1000); }
template <class T> static Write<T> vals(char const* n, LO size);
template <> Write<I8> vals<I8>(char const* n, LO s) { return anys<I8>(n, s); }
template <> Write<I32> vals<I32>(char const* n, LO s) { return anys<I32>(n, s); }
template <> Write<I64> vals<I64>(char const* n, LO s) { return anys<I64>(n, s); }
template <> Write<Real> vals<Real>(char const* n, LO s) { return ranged<Real>(n, s, -1000, 1000); }
// two's complement arithmetic of the definitions, without undefined behaviour in the oracle
template <class T> struct U { typedef uint64_t t; };
template <> struct U<Real> { typedef Real t; };
template <class T> static T add(T a, T b) { return T(typename U<T>::t(a) + typename U<T>::t(b)); }
template <class T> static T sub(T a, T b) { return T(typename U<T>::t(a) - typename U<T>::t(b)); }
template <class T> static void each() {
  int n = size_upto("N", 2); Read<T> a = vals<T>("a", n), b = vals<T>("b", n); T s = anyv<T>(); Bytes c = ranged<I8>("c", n, 0, 1);
#define EACH(expr, val) { auto r = expr; ASSERT(r.size() == n); for (int i = 0; i < n; ++i) ASSERT(r[i] == (val)); }
  EACH(add_each(a, b), add(a[i], b[i])) EACH(subtract_each(a, b), sub(a[i], b[i])) EACH(add_to_each(a, s), add(a[i], s)) EACH(subtract_from_each(a, s), sub(a[i], s))
  EACH(min_each(a, b), (a[i] < b[i] ? a[i] : b[i])) EACH(max_each(a, b), (a[i] > b[i] ? a[i] : b[i])) EACH(each_max_with(a, s), (a[i] > s ? a[i] : s))
  EACH(ternary_each(c, a, b), (c[i] ? a[i] : b[i]))
  EACH(each_geq_to(a, s), (a[i] >= s)) EACH(each_leq_to(a, s), (a[i] <= s)) EACH(each_gt(a, s), (a[i] > s)) EACH(each_lt(a, s), (a[i] < s)) EACH(each_neq_to(a, s), (a[i] != s)) EACH(each_eq_to(a, s), (a[i] == s))
  EACH(each_eq(a, b), (a[i] == b[i])) EACH(gt_each(a, b), (a[i] > b[i])) EACH(lt_each(a, b), (a[i] < b[i])) EACH(eq_each(a, b), (a[i] == b[i])) EACH(neq_each(a, b), (a[i] != b[i]))
  bool eq = true; for (int i = 0; i < n; ++i) eq = eq && a[i] == b[i];
  ASSERT((a == b) == eq);
  LO fl = find_last(a, s), e = -1; for (int i = 0; i < n; ++i) if (a[i] == s) e = i; ASSERT(fl == e);
  bool so = true; for (int i = 1; i < n; ++i) so = so && a[i - 1] <= a[i]; ASSERT(is_sorted(a) == so);
  if (n == param("N", 2)) REACH("each");
}
H(arr_each_i8) { each<I8>(); }
H(arr_each_i32) { each<I32>(); }
H(arr_each_i64) { each<I64>(); }
H(arr_each_real) { each<Real>(); }
template <class T> static void muls() {
  int n = size_upto("N", 3), w = n ? (int)osym_choose("w", 0, 2) : 0; Read<T> a = ranged<T>("a", n * w, -12, 12), b = chosen<T>("b", n, 1, 3); T s = (T)osym_choose("s", 1, 5);
  Read<T> m = multiply_each(a, b); ASSERT(m.size() == a.size()); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) ASSERT(m[i * w + j] == T(a[i * w + j] * b[i]));
  Read<T> back = divide_each(m, b); ASSERT(back.size() == a.size()); if (sizeof(T) > 1) for (int i = 0; i < n * w; ++i) ASSERT(back[i] == a[i]);
  Read<T> ms = multiply_each_by(a, s); for (int i = 0; i < n * w; ++i) ASSERT(ms[i] == T(a[i] * s));
  if (sizeof(T) > 1) { Read<T> d = divide_each_by(ms, s); for (int i = 0; i < n * w; ++i) ASSERT(d[i] == a[i]); }
  if (w == 2 && n) REACH("mul");
}
H(arr_mul) { int t = (int)osym_choose("t", 0, 2); if (t == 0) muls<I32>(); if (t == 1) muls<I64>(); if (t == 2) muls<I8>(); }
H(arr_mul_real) { 
  int n = (int)osym_choose("n", 0, 2), w = n ? (int)osym_choose("w", 1, 2) : 0; Reals a = ranged<Real>("a", n * w, -100, 100), b = ranged<Real>("b", n, -4, 4);
  Reals m = multiply_each(a, b); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) ASSERT(m[i * w + j] == a[i * w + j] * b[i]);
  Reals z = divide_each_maybe_zero(m, b); ASSERT(z.size() == m.size()); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) if (b[i] == 0) ASSERT(z[i * w + j] == 0); 
  Reals ip = interpolate_between(a, m, 0.5); for (int i = 0; i < n * w; ++i) ASSERT(ip[i] * 2 == a[i] + m[i]); ip = interpolate_between(a, m, 0.0); for (int i = 0; i < n * w; ++i) ASSERT(ip[i] == a[i]); ip = interpolate_between(a, m, 1.0); for (int i = 0; i < n * w; ++i) ASSERT(ip[i] == m[i]);
  Reals f = fabs_each(a); for (int i = 0; i < n * w; ++i) ASSERT(f[i] == (a[i] < 0 ? -a[i] : a[i]));
  REACH("mulr");
}
H(arr_bytes) {
  int n = size_upto("N", 3); Bytes a = anys<I8>("a", n), b = anys<I8>("b", n);
  EACH(land_each(a, b), (a[i] && b[i])) EACH(lor_each(a, b), (a[i] || b[i])) EACH(bit_or_each(a, b), I8(a[i] | b[i])) EACH(bit_neg_each(a), I8(~a[i]))
  Read<I32> up = array_cast<I32>(a); ASSERT(up.size() == n); for (int i = 0; i < n; ++i) ASSERT(up[i] == a[i]);
  Reals re = array_cast<Real>(up); ASSERT(re.size() == n); for (int i = 0; i < n; ++i) ASSERT(re[i] == Real(a[i]));
  REACH("bytes");
}
template <class T, class Wide> static void red(bool arith) {
  int n = size_upto("N", 4); Read<T> a = arith ? Read<T>(ranged<T>("a", n, -1000, 1000)) : Read<T>(anys<T>("a", n));
  Wide s = 0; for (int i = 0; i < n; ++i) s = Wide(typename U<Wide>::t(s) + typename U<Wide>::t(Wide(a[i]))); ASSERT(get_sum(a) == s);
  T mn = get_min(a), mx = get_max(a); bool hn = false, hx = false;
  for (int i = 0; i < n; ++i) { ASSERT(mn <= a[i]); ASSERT(mx >= a[i]); hn |= mn == a[i]; hx |= mx == a[i]; }
  if (n) { ASSERT(hn); ASSERT(hx); } else { ASSERT(mn == ArithTraits<promoted_t<T>>::max() || mn == ArithTraits<T>::max()); ASSERT(mx == ArithTraits<promoted_t<T>>::min() || mx == ArithTraits<T>::min()); }
  if (n == param("N", 4)) REACH("red");
}
H(arr_red_i8) { red<I8, I32>(false); }
H(arr_red_i32) { red<I32, I32>(false); }
H(arr_red_i64) { red<I64, I64>(false); }
H(arr_red_real) { red<Real, Real>(true); }
template <class T> static void comps() {
  int n = size_upto("N", 2), nc = (int)osym_choose("nc", 1, 3); Read<T> a = vals<T>("a", n * nc); std::vector<Read<T>> cs;
  for (int c = 0; c < nc; ++c) { Read<T> g = get_component(a, nc, c); ASSERT(g.size() == n); for (int i = 0; i < n; ++i) ASSERT(g[i] == a[i * nc + c]); cs.push_back(g); }
  Read<T> il = interleave(cs); ASSERT(il.size() == n * nc); for (int i = 0; i < n * nc; ++i) ASSERT(il[i] == a[i]);
  int k = (int)osym_choose("k", 0, nc - 1); Read<T> x = vals<T>("x", n); Write<T> w = deep_copy(a); set_component(w, x, nc, k);
  for (int i = 0; i < n; ++i) for (int c = 0; c < nc; ++c) ASSERT(w[i * nc + c] == (c == k ? x[i] : a[i * nc + c]));
  Read<T> fil = Read<T>(n, anyv<T>()); for (int i = 1; i < n; ++i) ASSERT(fil[i] == fil[0]);
  if (n == param("N", 2) && nc == 3) REACH("comps");
}
H(arr_comps) { int t = (int)osym_choose("t", 0, 3); if (t == 0) comps<I8>(); if (t == 1) comps<I32>(); if (t == 2) comps<I64>(); if (t == 3) comps<Real>(); }
template <class T> static void coal() {
  int k = (int)osym_choose("k", 1, 3); std::vector<Read<T>> v; std::vector<T> all;
  for (int i = 0; i < k; ++i) { int n = size_upto("N", 2); Read<T> a = vals<T>("a", n); v.push_back(a); for (int j = 0; j < n; ++j) all.push_back(a[j]); }
  Read<T> c = coalesce(v); ASSERT(c.size() == (LO)all.size()); for (int i = 0; i < c.size(); ++i) ASSERT(c[i] == all[i]);
  if (k == 3) REACH("coalesced");
}
H(arr_coalesce) { if (osym_choose("t", 0, 1)) coal<I8>(); else coal<Real>(); }
H(arr_build) {  // constructors and element access
  int n = size_upto("N", 4); I32 o = osym_i32("o", -1000, 1000), st = osym_i32("s", -3, 3); Read<I32> a(n, o, st); ASSERT(a.size() == n); for (int i = 0; i < n; ++i) ASSERT(a[i] == o + i * st);
  Write<I32> w(n, o); for (int i = 0; i < n; ++i) ASSERT(w[i] == o); if (n) { int k = (int)osym_choose("k", 0, n - 1); w.set(k, st); for (int i = 0; i < n; ++i) ASSERT(w.get(i) == (i == k ? st : o)); Read<I32> r(w); ASSERT(r.first() == w[0]); ASSERT(r.last() == w[n - 1]); }
  Read<I32> il({o, st, 7}); ASSERT(il.size() == 3 && il[0] == o && il[1] == st && il[2] == 7); HostRead<I32> h(il); ASSERT(h.size() == 3 && h[0] == o && h[1] == st && h[2] == 7);
  HostWrite<I32> hw(n); for (int i = 0; i < n; ++i) hw[i] = a[i] + 1; Read<I32> rb(hw.write()); ASSERT(rb.size() == n); for (int i = 0; i < n; ++i) ASSERT(rb[i] == a[i] + 1);
  Write<I32> dc = deep_copy(a); for (int i = 0; i < n; ++i) dc[i] = 99; for (int i = 0; i < n; ++i) ASSERT(a[i] == o + i * st);
  REACH("built");
}
