// C22: the red-black tree
#include "hh.hpp"
#include <functional>
#include <algorithm>
#include "Omega_h_rbtree.hpp"
using namespace Omega_h;
struct Ident { int const& operator()(int const& x) const { return x; } };
typedef Rb_tree<int, int, Ident, std::less<int>> TB;
struct Tree : TB {
  typedef Rb_tree_node_base* P;
  int check(P x, P parent, int& count) {  // black height
    if (!x) return 0; ++count; ASSERT(x->M_parent == parent); 
    if (x->M_color == S_rb_tree_red) { ASSERT(!x->M_left || x->M_left->M_color == S_rb_tree_black); ASSERT(!x->M_right || x->M_right->M_color == S_rb_tree_black); }
    if (x->M_left) ASSERT(S_key(x->M_left) < S_key(x)); if (x->M_right) ASSERT(S_key(x) < S_key(x->M_right));
    int a = check(x->M_left, x, count), b = check(x->M_right, x, count); ASSERT(a == b); return a + (x->M_color == S_rb_tree_black);
  }
  void check() {
    P h = M_header, root = h->M_parent; int n = 0; 
    if (root) { ASSERT(root->M_color == S_rb_tree_black); check(root, h, n); ASSERT(h->M_left == Rb_tree_node_base::S_minimum(root)); ASSERT(h->M_right == Rb_tree_node_base::S_maximum(root)); } else { ASSERT(h->M_left == h && h->M_right == h); }
    ASSERT((int)size() == n); ASSERT(empty() == (n == 0));
  }
};
struct Model { int k[16], n = 0; int find(int x) { for (int i = 0; i < n; ++i) if (k[i] == x) return i; return -1; } bool add(int x) { if (find(x) >= 0) return false; int i = n++; while (i > 0 && k[i - 1] > x) { k[i] = k[i - 1]; --i; } k[i] = x; return true; } void del(int x) { int i = find(x); if (i < 0) return; --n; for (; i < n; ++i) k[i] = k[i + 1]; } };
static void compare(Tree& t, Model& m) {
  t.check(); int i = 0; for (auto it = t.begin(); it != t.end(); ++it) { ASSERT(i < m.n); ASSERT(*it == m.k[i]); ++i; } ASSERT(i == m.n);
  auto it = t.end(); while (it != t.begin()) { --it; --i; ASSERT(*it == m.k[i]); } ASSERT(i == 0);
}
// arbitrary keys: every relative order of N keys, then queries
H(rb_order) {
  int64_t live = osym_heap_live(); { Tree t; Model m; int n = size_upto("N", 4); int k[8]; for (int i = 0; i < n; ++i) k[i] = osym_i32("k", INT32_MIN, INT32_MAX);
  for (int i = 0; i < n; ++i) { bool fresh = m.add(k[i]); auto r = t.insert(k[i]); ASSERT(r.second == fresh); ASSERT(*r.first == k[i]); } compare(t, m);
  int q = osym_i32("q", INT32_MIN, INT32_MAX); int below = 0, upto = 0; for (int i = 0; i < m.n; ++i) { below += (int)osym_concretize(m.k[i] < q); upto += (int)osym_concretize(m.k[i] <= q); }
  auto f = t.find(q); ASSERT((f != t.end()) == (m.find(q) >= 0)); if (f != t.end()) ASSERT(*f == q); ASSERT((int)t.count(q) == upto - below);
  auto lb = t.lower_bound(q), ub = t.upper_bound(q); int i = 0; for (auto it = t.begin(); it != lb; ++it) ++i; ASSERT(i == below); for (auto it = lb; it != ub; ++it) ++i; ASSERT(i == upto);
  auto er = t.equal_range(q); ASSERT(er.first == lb && er.second == ub);
  Tree const& c = t; ASSERT((c.find(q) != c.end()) == (m.find(q) >= 0)); i = 0; for (auto it = c.begin(); it != c.lower_bound(q); ++it) ++i; ASSERT(i == below); for (auto it = c.lower_bound(q); it != c.upper_bound(q); ++it) ++i; ASSERT(i == upto);
  int had = m.find(q) >= 0; m.del(q); ASSERT((int)t.erase(q) == had); compare(t, m); } ASSERT(osym_heap_live() == live); REACH("order");
}
// build in several orders, then remove in every order: all deletion cases
static void build(Tree& t, Model& m, int n, int ord) { for (int i = 0; i < n; ++i) { int k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i * 5) % n : ord == 3 ? (i & 1 ? n - 1 - i / 2 : i / 2) : (i * 3 + n / 2) % n; t.insert(10 * k); m.add(10 * k); t.check(); } }
H(rb_erase) {
  int64_t live = osym_heap_live(); { Tree t; Model m; int n = (int)osym_choose("n", 7, param("N", 8)); int ord = (int)osym_choose("ord", 0, 4); build(t, m, n, ord);
  if (n % 5 == 0 || n % 3 == 0) ASSUME(ord != 2 && ord != 4 || m.n == n);
  for (int d = 0; d < param("D", 4) && m.n > 0; ++d) { int i = (int)osym_choose("victim", 0, m.n - 1); int k = m.k[i]; auto it = t.find(k); ASSERT(it != t.end()); t.erase(it); m.del(k); t.check(); ASSERT(t.find(k) == t.end()); } compare(t, m); } ASSERT(osym_heap_live() == live); REACH("erase");
}
// random interleavings of everything
H(rb_history) {
  int64_t live = osym_heap_live(); { Tree t; Model m; build(t, m, (int)osym_choose("n", 0, 1) * 5, 0);
  for (int s = 0; s < param("S", 3); ++s) {
    int op = (int)osym_choose("op", 0, 3), k = (int)osym_choose("k", 0, 5) * 10 + (op == 1 ? 5 : 0);
    if (op == 0) { bool f = m.add(k); int const kk = k; ASSERT(t.insert(kk).second == f); } else if (op == 1) { int h = (int)osym_choose("hint", 0, m.n); auto it = t.begin(); for (int i = 0; i < h; ++i) ++it; if (t.empty()) it = t.end(); auto r = t.insert(it, k); m.add(k); ASSERT(*r == k); }
    else if (op == 2) { int had = m.find(k) >= 0; ASSERT((int)t.erase(k) == had); m.del(k); } else { int a = (int)osym_choose("from", 0, m.n), b = (int)osym_choose("to", a, m.n); auto x = t.begin(); for (int i = 0; i < a; ++i) ++x; auto y = x; for (int i = a; i < b; ++i) ++y; t.erase(x, y); for (int i = a; i < b; ++i) m.del(m.k[a]); }
    compare(t, m);
  } } ASSERT(osym_heap_live() == live); REACH("history");
}
H(rb_copy) {
  int64_t live = osym_heap_live(); { Tree t, u; Model m, w; build(t, m, (int)osym_choose("n", 0, 7), (int)osym_choose("ord", 0, 1)); build(u, w, (int)osym_choose("n2", 0, 3), 0); 
  Tree c(t); compare(c, m); c.insert(3); compare(t, m); int how = (int)osym_choose("how", 0, 3);
  if (how == 0) { (TB&)u = t; compare(u, m); compare(t, m); } else if (how == 1) { u.swap(t); compare(u, m); compare(t, w); } else if (how == 2) { (TB&)t = t; compare(t, m); } else { t.clear(); m.n = 0; compare(t, m); t.insert(4); m.add(4); compare(t, m); }
  int ks[3] = {10, 20, 999}; if (how == 0) { u.erase(ks, ks + 3); m.del(10); m.del(20); compare(u, m); int add[3] = {7, 7, 8}; u.insert(add, add + 3); m.add(7); m.add(8); compare(u, m); } } ASSERT(osym_heap_live() == live); REACH("copy");
}
