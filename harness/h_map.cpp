#include "hh.hpp"
#include "Omega_h_map.hpp"
#include "Omega_h_int_scan.hpp"
#include "Omega_h_graph.hpp"
static void check_inverse(LOs a2b, LO nb, Graph g, bool ordered) {
  LO na = a2b.size();
  ASSERT(g.a2ab.size() == nb + 1); ASSERT(g.ab2b.size() == na); ASSERT(g.a2ab[0] == 0); ASSERT(g.a2ab[nb] == na);
  int seen = 0;
  for (LO b = 0; b < nb; ++b) {
    ASSERT(g.a2ab[b] <= g.a2ab[b + 1]);
    for (LO k = g.a2ab[b]; k < g.a2ab[b + 1]; ++k) { LO a = g.ab2b[k]; ASSERT(a >= 0 && a < na); ASSERT(a2b[a] == b); seen |= 1 << a; if (ordered && k > g.a2ab[b]) ASSERT(g.ab2b[k - 1] < a); }
  }
  ASSERT(seen == (1 << na) - 1);
}
H(map_invert) {
  int na = size_upto("NA", 4), nb = (int)osym_choose("nb", na ? 1 : 0, param("NB", 3));
  LOs a2b = ranged<LO>("b", na, 0, nb - 1 < 0 ? 0 : nb - 1);
  Graph g = osym_choose("how", 0, 1) ? invert_map_by_sorting(a2b, nb) : invert_map_by_atomics(a2b, nb);
  check_inverse(a2b, nb, g, true);
  obs("off", g.a2ab); obs("vals", g.ab2b);
  REACH("inverted");
}
H(map_funnel) {  // invert_funnel, invert_fan, fill_right
  int na = size_upto("NA", 4); LOs a2ab = fan("deg", na, param("D", 2)); LO nab = a2ab[na];
  Write<LO> f(nab); for (LO a = 0; a < na; ++a) for (LO i = a2ab[a]; i < a2ab[a + 1]; ++i) f[i] = a;
  LOs fun(f); LOs inv = invert_funnel(fun, na);
  ASSERT(inv.size() == na + 1); for (LO a = 0; a <= na; ++a) ASSERT(inv[a] == a2ab[a]);
  LOs back = invert_fan(a2ab);
  ASSERT(back.size() == nab); for (LO i = 0; i < nab; ++i) ASSERT(back[i] == fun[i]);
  LOs deg = get_degrees(a2ab); ASSERT(deg.size() == na); for (LO a = 0; a < na; ++a) ASSERT(deg[a] == a2ab[a + 1] - a2ab[a]);
  Bytes pre = mark_fan_preimage(a2ab); for (LO a = 0; a < na; ++a) ASSERT(!!pre[a] == (a2ab[a] != a2ab[a + 1]));
  obs("inv", inv); REACH("funnel");
}
H(map_marks) {  // offset_scan, collect_marked, invert_marks, mark_image, injective maps
  int n = size_upto("N", 5); Read<I8> m = ranged<I8>("m", n, 0, 1);
  LOs off = offset_scan(m); ASSERT(off.size() == n + 1);
  LO s = 0; for (int i = 0; i < n; ++i) { ASSERT(off[i] == s); s += m[i]; } ASSERT(off[n] == s);
  LOs c = collect_marked(m); ASSERT(c.size() == s);
  for (LO i = 0; i < c.size(); ++i) { ASSERT(c[i] >= 0 && c[i] < n); ASSERT(m[c[i]]); if (i) ASSERT(c[i - 1] < c[i]); }
  Read<I8> im = invert_marks(m); for (int i = 0; i < n; ++i) ASSERT(!!im[i] == !m[i]);
  Read<I8> mi = mark_image(c, n); for (int i = 0; i < n; ++i) ASSERT(!!mi[i] == !!m[i]);
  LOs inj = invert_injective_map(c, n); ASSERT(inj.size() == n);
  for (int i = 0; i < n; ++i) { if (m[i]) { ASSERT(inj[i] >= 0 && inj[i] < s); ASSERT(c[inj[i]] == i); } else ASSERT(inj[i] == -1); }
  obs("c", c); if (s > 0 && s < n) REACH("mixed");
}
H(map_scan32) {
  int n = size_upto("N", 5); Read<I32> d = ranged<I32>("d", n, 0, 100000); LOs off = offset_scan(d);
  ASSERT(off.size() == n + 1); LO s = 0; for (int i = 0; i < n; ++i) { ASSERT(off[i] == s); s += d[i]; } ASSERT(off[n] == s);
  Write<LO> w(n + 1, -1); LO cur = 0; w[0] = 0; for (int i = 1; i <= n; ++i) { if (osym_choose("set", 0, 1)) { cur += osym_i32("inc", 0, 100); w[i] = cur; } }
  Write<LO> r = deep_copy(Read<LO>(w)); fill_right(r);
  LO c = 0; for (int i = 0; i <= n; ++i) { if (w[i] >= 0) c = w[i]; ASSERT(r[i] == c); }
  obs("off", off); REACH("scan");
}
template <class T> static void moves(int width) {
  int na = param("NA", 3), nb = param("NB", 3); bool sums = osym_choose("sums", 0, 1);
  LOs a2b = sums ? chosen<LO>("b", na, 0, nb - 1) : ranged<LO>("b", na, 0, nb - 1);
  Read<T> ad = anys<T>("a", na * width), bd = anys<T>("bd", nb * width);
  if (!sums) { Read<T> u = unmap(a2b, bd, width); ASSERT(u.size() == na * width); for (int a = 0; a < na; ++a) for (int j = 0; j < width; ++j) ASSERT(u[a * width + j] == bd[a2b[a] * width + j]); }
  Write<T> acc = deep_copy(bd); map_into(ad, a2b, acc, width);
  for (int b = 0; b < nb; ++b) { int last = -1; for (int a = 0; a < na; ++a) if (a2b[a] == b) last = a; for (int j = 0; j < width; ++j) ASSERT(acc[b * width + j] == (last < 0 ? bd[b * width + j] : ad[last * width + j])); }
  if (sums) { Write<T> sum = deep_copy(bd); add_into(ad, a2b, sum, width);
  for (int b = 0; b < nb; ++b) for (int j = 0; j < width; ++j) { T s = bd[b * width + j]; for (int a = 0; a < na; ++a) if (a2b[a] == b) s = T(s + ad[a * width + j]); ASSERT(sum[b * width + j] == s); } return; }
  Write<T> val = deep_copy(bd); if (width == 1) { T x = Sym<T>::any("x"); map_value_into(x, a2b, val); for (int b = 0; b < nb; ++b) { bool hit = false; for (int a = 0; a < na; ++a) hit |= a2b[a] == b; ASSERT(val[b] == (hit ? x : bd[b])); } }
  Read<T> on = map_onto(ad, a2b, nb, T(7), width); 
  for (int b = 0; b < nb; ++b) { int last = -1; for (int a = 0; a < na; ++a) if (a2b[a] == b) last = a; for (int j = 0; j < width; ++j) ASSERT(on[b * width + j] == (last < 0 ? T(7) : ad[last * width + j])); }
  REACH("moved");
}
H(map_move_i8) { moves<I8>((int)osym_choose("w", 1, 2)); }
H(map_move_i32) { moves<I32>((int)osym_choose("w", 1, 2)); }
H(map_move_i64) { moves<I64>((int)osym_choose("w", 1, 2)); }
template <class T> static void ranges() {
  int nb = param("NB", 4); int width = (int)osym_choose("w", 1, 2); int lo = (int)osym_choose("lo", 0, nb), hi = (int)osym_choose("hi", lo, nb);
  Read<T> bd = anys<T>("bd", nb * width), ad = anys<T>("a", (hi - lo) * width);
  Read<T> u = unmap_range(lo, hi, bd, width); ASSERT(u.size() == (hi - lo) * width); for (int i = 0; i < u.size(); ++i) ASSERT(u[i] == bd[lo * width + i]);
  Write<T> w = deep_copy(bd); map_into_range(ad, lo, hi, w, width);
  for (int i = 0; i < nb * width; ++i) ASSERT(w[i] == (i >= lo * width && i < hi * width ? ad[i - lo * width] : bd[i]));
  REACH("range");
}
H(map_range) { if (osym_choose("t", 0, 1)) ranges<I64>(); else ranges<I32>(); }
template <class T> static void expands() {
  int na = size_upto("NA", 3); int width = (int)osym_choose("w", 1, 2); LOs f = fan("deg", na, 2);
  Read<T> a = anys<T>("a", na * width); Read<T> e = expand(a, f, width); ASSERT(e.size() == f[na] * width);
  for (int i = 0; i < na; ++i) for (LO b = f[i]; b < f[i + 1]; ++b) for (int j = 0; j < width; ++j) ASSERT(e[b * width + j] == a[i * width + j]);
  REACH("expanded");
}
H(map_expand) { if (osym_choose("t", 0, 1)) expands<I64>(); else expands<I8>(); }
H(map_compose) {
  int n = param("N", 4); LOs p0 = ranged<LO>("p", n, 0, n - 1); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) ASSUME(p0[i] != p0[j]);
  LOs q = invert_permutation(p0); ASSERT(q.size() == n); for (int i = 0; i < n; ++i) { ASSERT(q[p0[i]] == i); ASSERT(p0[q[i]] == i); }
  LOs d = ranged<LO>("d", n, -5, 5); LOs c = compound_maps(p0, d); for (int i = 0; i < n; ++i) ASSERT(c[i] == d[p0[i]]);
  LOs pm = permute(d, p0, 1); for (int i = 0; i < n; ++i) ASSERT(pm[p0[i]] == d[i]);
  int na = 3; LOs f = fan("f", na, 2), g = fan("g", na, 2); LOs m = multiply_fans(f, g); ASSERT(m.size() == na + 1 && m[0] == 0);
  for (int i = 0; i < na; ++i) ASSERT(m[i + 1] - m[i] == (f[i + 1] - f[i]) * (g[i + 1] - g[i]));
  obs("q", q); REACH("composed");
}
template <class T> static void reduces() {
  int na = size_upto("NA", 2); int width = (int)osym_choose("w", 1, 2); LOs f = fan("deg", na, param("D", 2)); Read<T> b = sizeof(T) == 8 && T(0.5) != 0 ? Read<T>(ranged<T>("b", f[na] * width, -1000, 1000)) : Read<T>(anys<T>("b", f[na] * width));
  Read<T> mx = fan_reduce(f, b, width, OMEGA_H_MAX), mn = fan_reduce(f, b, width, OMEGA_H_MIN), sm = fan_reduce(f, b, width, OMEGA_H_SUM);
  ASSERT(mx.size() == na * width && mn.size() == na * width && sm.size() == na * width);
  for (int a = 0; a < na; ++a) for (int j = 0; j < width; ++j) {
    T s = 0; bool hx = false, hn = false; 
    for (LO k = f[a]; k < f[a + 1]; ++k) { T v = b[k * width + j]; s = T(s + v); ASSERT(mx[a * width + j] >= v); ASSERT(mn[a * width + j] <= v); hx |= mx[a * width + j] == v; hn |= mn[a * width + j] == v; }
    ASSERT(sm[a * width + j] == s); if (f[a] < f[a + 1]) { ASSERT(hx); ASSERT(hn); }
  }
  REACH("reduced");
}
H(map_reduce) { int t = (int)osym_choose("t", 0, 3); if (t == 0) reduces<I8>(); if (t == 1) reduces<I32>(); if (t == 2) reduces<I64>(); if (t == 3) reduces<Real>(); }
