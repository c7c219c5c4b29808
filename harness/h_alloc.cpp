#include "hh.hpp"
#include "Omega_h_malloc.hpp"
#include "Omega_h_pool.hpp"
#include "Omega_h_shared_alloc.hpp"
#include "Omega_h_map.hpp"
#include "Omega_h_for.hpp"
#include "Omega_h_reduce.hpp"
#include "Omega_h_sort.hpp"
#include "Omega_h_int_scan.hpp"
// C05: histories of handle operations against a shadow
static void check_registry() {
  if (!global_allocs) return;
  std::size_t tot = 0; int n = 0; Alloc* prev = nullptr;
  for (Alloc* a = global_allocs->first; a; prev = a, a = a->next) { ASSERT(a->prev == prev); tot += a->size; ++n; ASSERT(n < 100); }
  ASSERT(global_allocs->last == prev); ASSERT(global_allocs->total_bytes == tot); ASSERT(global_allocs->high_water_bytes >= tot);
  std::size_t hw = 0; for (auto& r : global_allocs->high_water_records) hw += r.bytes; ASSERT(hw == global_allocs->high_water_bytes);
}
static void handle_history(int ns) {
  enum { MAXS = 3 };
  int id[MAXS] = {0, 0, 0}, next = 1; LO size[16] = {0}; I32 val[16] = {0}; std::size_t want = 0;
  Write<I32> s[MAXS]; Read<I32> rd; int rid = 0; int steps = param("N", 4);
  for (int st = 0; st < steps; ++st) {
    int op = (int)osym_choose("op", 0, 4), i = (int)osym_choose("i", 0, ns - 1);
    if (op == 0) { LO n = 1 + st % 3; I32 v = osym_i32("v", INT32_MIN, INT32_MAX); s[i] = Write<I32>(n, v, "h"); id[i] = next; size[next] = n; val[next] = v; ++next; }
    if (op == 1) { int j = (int)osym_choose("j", 0, ns - 1); s[i] = s[j]; id[i] = id[j]; }
    if (op == 2) { int j = (int)osym_choose("j", 0, ns - 1); s[i] = std::move(s[j]); if (i != j) { s[j] = Write<I32>(); id[i] = id[j]; id[j] = 0; } else { s[i] = Write<I32>(); id[i] = 0; } }
    if (op == 3) { s[i] = Write<I32>(); id[i] = 0; }
    if (op == 4) { if (osym_choose("how", 0, 1)) { Write<I32> t(s[i]); Write<I32> u(std::move(t)); if (id[i]) ASSERT(u[0] == val[id[i]]); rd = Read<I32>(u); } else rd = s[i]; rid = id[i]; }
    want = 0; bool seen[16] = {false};
    for (int k = 0; k <= ns; ++k) {
      int d = k < ns ? id[k] : rid; Write<I32> const* w = k < ns ? &s[k] : nullptr; bool ex = w ? w->exists() : rd.exists(); ASSERT(ex == (d != 0)); if (!d) continue;
      ASSERT((w ? w->size() : rd.size()) == size[d]); for (LO e = 0; e < size[d]; ++e) ASSERT((w ? (*w)[e] : rd[e]) == val[d]);
      int uc = 0; for (int q = 0; q < ns; ++q) uc += id[q] == d; uc += rid == d; if (w) ASSERT(w->use_count() == uc);
      if (!seen[d]) { seen[d] = true; want += std::size_t(size[d]) * sizeof(I32); }
    }
    if (global_allocs) ASSERT(global_allocs->total_bytes == want);
    check_registry();
  }
  REACH("history");
}
H(alloc_history) { int64_t h0 = osym_heap_live(); handle_history(param("S", 2)); ASSERT(osym_heap_live() == h0); }
H(alloc_tracked) {
  int64_t h0 = osym_heap_live(); start_tracking_allocations(); handle_history(2); ASSERT(global_allocs->total_bytes == 0); ASSERT(!global_allocs->first && !global_allocs->last);
  delete global_allocs; global_allocs = nullptr; ASSERT(osym_heap_live() == h0);
}
H(alloc_pooled) { int64_t h0 = osym_heap_live(); enable_pooling(); handle_history(2); disable_pooling(); ASSERT(osym_heap_live() == h0); }
// whole operations on arrays leave nothing behind
H(alloc_ops) {
  int64_t h0 = osym_heap_live(); int n = size_upto("N", 3); start_tracking_allocations();
  { LOs a = ranged<LO>("a", n, 0, 2); GOs g = anys<GO>("g", n); 
    int op = (int)osym_choose("op", 0, 9);
    if (op == 0) { auto x = add_each(g, g); auto y = get_max(x); (void)y; }
    if (op == 1) { auto x = invert_map_by_sorting(a, 3); auto y = invert_map_by_atomics(a, 3); }
    if (op == 2) { auto x = offset_scan(a); auto y = get_sum(a); (void)y; }
    if (op == 3) { auto x = sort_by_keys(a, 1); }
    if (op == 4) { auto x = collect_marked(Read<I8>(n, 1)); }
    if (op == 5) { auto x = coalesce(std::vector<GOs>{g, g}); auto y = interleave(std::vector<GOs>{g, x.size() == n ? x : g}); }
    if (op == 6) { HostRead<LO> h(a); HostWrite<LO> w(n); for (int i = 0; i < n; ++i) w[i] = h[i]; LOs b(w.write()); ASSERT(b == a); }
    if (op == 7) { auto x = unmap(a, GOs(3, 0, 5), 1); ASSERT(n == 0 || x[0] == a[0] * 5); }
    if (op == 8) { auto w = deep_copy(g); parallel_for(n, OMEGA_H_LAMBDA(LO i) { w[i] = g[i] + 1; }); for (int i = 0; i < n; ++i) ASSERT(w[i] == GO(uint64_t(g[i]) + 1)); }
    if (op == 9) { bool e = a == a; ASSERT(e); auto m = get_min(a); (void)m; }
    check_registry();
  }
  ASSERT(global_allocs->total_bytes == 0); delete global_allocs; global_allocs = nullptr; ASSERT(osym_heap_live() == h0); REACH("ops");
}
// C06
struct Under { void* p[16]; std::size_t n[16]; bool freed[16]; int cnt; int fail_at; int calls; };
static Under* U0;
H(pool_history) {
  Under u; __builtin_memset(&u, 0, sizeof u); U0 = &u; int steps = param("N", 4); u.fail_at = (int)osym_choose("fail", 0, 2);
  int64_t h0 = osym_heap_live();
  {
    Pool pool([](std::size_t n) -> void* { if (++U0->calls == U0->fail_at) return nullptr; void* p = ::malloc(n); U0->p[U0->cnt] = p; U0->n[U0->cnt] = n; U0->freed[U0->cnt++] = false; return p; },
      [](void* p, std::size_t n) { bool hit = false; for (int i = 0; i < U0->cnt; ++i) if (U0->p[i] == p && !U0->freed[i]) { ASSERT(U0->n[i] == n); U0->freed[i] = true; hit = true; } ASSERT(hit); ::free(p); });
    unsigned char* live[8]; std::size_t sz[8]; unsigned char pat[8]; int nl = 0;
    for (int st = 0; st < steps; ++st) {
      int op = nl ? (int)osym_choose("op", 0, 1) : 0;
      if (op == 0) {
        std::size_t n = (std::size_t)osym_choose("size", 0, param("MAX", 5)); bool will_fail = u.calls + 1 == u.fail_at; (void)will_fail;
        unsigned char* p = (unsigned char*)allocate(pool, n); ASSERT(p != nullptr);
        bool in = false; for (int i = 0; i < u.cnt; ++i) if (!u.freed[i] && p == u.p[i] && n <= u.n[i]) in = true; ASSERT(in);
        for (int i = 0; i < nl; ++i) ASSERT(p + (n ? n : 1) <= live[i] || live[i] + (sz[i] ? sz[i] : 1) <= p);
        pat[nl] = osym_u8("pat"); for (std::size_t k = 0; k < n; ++k) p[k] = pat[nl]; live[nl] = p; sz[nl] = n; ++nl;
      } else { int k = (int)osym_choose("k", 0, nl - 1); deallocate(pool, live[k], sz[k]); live[k] = live[nl - 1]; sz[k] = sz[nl - 1]; pat[k] = pat[nl - 1]; --nl; }
      for (int i = 0; i < nl; ++i) for (std::size_t k = 0; k < sz[i]; ++k) ASSERT(live[i][k] == pat[i]);
    }
    REACH("pooled");
  }
  for (int i = 0; i < u.cnt; ++i) ASSERT(u.freed[i]);
  ASSERT(osym_heap_live() == h0);
}
H(pool_reuse) {  // a released block serves the next request of its size class
  static int calls; calls = 0; Pool pool([](std::size_t n) -> void* { ++calls; return ::malloc(n); }, [](void* p, std::size_t) { ::free(p); });
  std::size_t a = (std::size_t)osym_choose("a", 1, 33); void* p = allocate(pool, a); ASSERT(calls == 1); deallocate(pool, p, a); void* q = allocate(pool, a); ASSERT(calls == 1); ASSERT(q == p);
  void* r = allocate(pool, a); ASSERT(r != q); ASSERT(calls == 2); REACH("reuse");
}
H(pool_global) {
  int64_t h0 = osym_heap_live(); enable_pooling(); int n = (int)osym_choose("n", 0, 9);
  void* p = maybe_pooled_device_malloc(n); void* h = maybe_pooled_host_malloc(n); ASSERT(p && h && p != h); for (int i = 0; i < n; ++i) { ((char*)p)[i] = 1; ((char*)h)[i] = 2; }
  if (osym_choose("order", 0, 1)) { maybe_pooled_host_free(h, n); maybe_pooled_device_free(p, n); } else { maybe_pooled_device_free(p, n); maybe_pooled_host_free(h, n); }
  void* p2 = maybe_pooled_device_malloc(n); ASSERT(p2 == p); if (osym_choose("again", 0, 1)) maybe_pooled_device_free(p2, n);
  disable_pooling(); ASSERT(osym_heap_live() == h0);
  void* z = maybe_pooled_device_malloc(8); maybe_pooled_device_free(z, 8); ASSERT(osym_heap_live() == h0); REACH("global");
}
