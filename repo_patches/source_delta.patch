From 607963461319108d9443cbcd4a80db6b72fff0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 01/28] fix: coalesce computes its offsets from the preceding
 arrays

The loop read arrays[i] for i up to arrays.size() inclusive: out of bounds
for the last one, and the wrong size for all others.
---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..f13af03 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -450,7 +450,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0


From 04d84413399f7dfa94869ae7b8fee4eaa7c68456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 02/28] fix: ternary_each and divide_each accept empty arrays

Like multiply_each and divide_each_maybe_zero already do; a rank without
entities aborted in divide_no_remainder.
---
 src/Omega_h_array_ops.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index f13af03..da51081 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -127,8 +127,12 @@ Read<T> multiply_each_by(Read<T> a, T b) {
 
 template <typename T>
 Write<T> divide_each(Read<T> a, Read<T> b, std::string const& name) {
-  auto width = divide_no_remainder(a.size(), b.size());
   Write<T> c(a.size(), name);
+  if (b.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), b.size());
   auto f = OMEGA_H_LAMBDA(LO i) {
     for (Int j = 0; j < width; ++j) {
       c[i * width + j] = a[i * width + j] / b[i];
@@ -309,8 +313,12 @@ Read<T> max_each(Read<T> a, Read<T> b) {
 template <typename T>
 Read<T> ternary_each(Bytes cond, Read<T> a, Read<T> b) {
   OMEGA_H_CHECK(a.size() == b.size());
-  auto width = divide_no_remainder(a.size(), cond.size());
   Write<T> c(a.size());
+  if (cond.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), cond.size());
   auto f = OMEGA_H_LAMBDA(LO i) { c[i] = cond[i / width] ? a[i] : b[i]; };
   parallel_for(c.size(), f, "ternary_each");
   return c;
-- 
2.43.0


From bb69509de98af93335ff6f6a79c7c04ac785518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 03/28] fix: tracked allocations are appended to the end of the
 list

Alloc::init only moved the tail of the list when the list was empty, so the
second allocation onwards was lost from the list or cut others out of it.
---
 src/Omega_h_shared_alloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shared_alloc.cpp b/src/Omega_h_shared_alloc.cpp
index 6c3a0a9..e9e026c 100644
--- a/src/Omega_h_shared_alloc.cpp
+++ b/src/Omega_h_shared_alloc.cpp
@@ -98,8 +98,8 @@ void Alloc::init() {
       old_last->next = this;
     } else {
       ga->first = this;
-      ga->last = this;
     }
+    ga->last = this;
     ga->total_bytes += size;
     if (ga->total_bytes > ga->high_water_bytes) {
       Omega_h::ScopedTimer high_water_timer("high water update");
-- 
2.43.0


From bc9b1325c6001ca43c2367ec44b901db583e1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 04/28] fix: assigning a shared allocation to itself keeps it
 alive

clear() dropped the only reference and freed the allocation before it was
copied or moved from.
---
 src/Omega_h_shared_alloc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_shared_alloc.hpp b/src/Omega_h_shared_alloc.hpp
index 75d75e9..bc5f139 100644
--- a/src/Omega_h_shared_alloc.hpp
+++ b/src/Omega_h_shared_alloc.hpp
@@ -105,11 +105,13 @@ struct SharedAlloc {
   }
   OMEGA_H_INLINE SharedAlloc(SharedAlloc&& other) { move(std::move(other)); }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc const& other) {
+    if (this == &other) return *this;
     clear();
     copy(other);
     return *this;
   }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc&& other) {
+    if (this == &other) return *this;
     clear();
     move(std::move(other));
     return *this;
-- 
2.43.0


From d8b090c1bde052247bfdc5ad29d68798c484cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 05/28] fix: Rb_tree::erase(iterator) could not be instantiated
 (node base pointer not converted)

---
 src/Omega_h_rbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_rbtree.hpp b/src/Omega_h_rbtree.hpp
index 9fadc5b..9782da9 100644
--- a/src/Omega_h_rbtree.hpp
+++ b/src/Omega_h_rbtree.hpp
@@ -824,8 +824,8 @@ void Rb_tree<Key, Val, KeyOfValue, Cmp>::insert(II first, II last) {
 
 template <class Key, class Value, class KeyOfValue, class Compare>
 inline void Rb_tree<Key, Value, KeyOfValue, Compare>::erase(iterator position) {
-  Link_type y = Rb_tree_rebalance_for_erase(
-      position.M_node, M_header->M_parent, M_header->M_left, M_header->M_right);
+  auto y = static_cast<Link_type>(Rb_tree_rebalance_for_erase(
+      position.M_node, M_header->M_parent, M_header->M_left, M_header->M_right));
   destroy_node(y);
   --M_node_count;
 }
-- 
2.43.0


From 3d6e05eaf32ca69497fc5bdee07309a2259bd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 06/28] fix: UnitUniformDistribution started at an odd counter
 restarted the stream one deviate early

---
 src/Omega_h_random_inline.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_random_inline.hpp b/src/Omega_h_random_inline.hpp
index cda09d3..12c7fce 100644
--- a/src/Omega_h_random_inline.hpp
+++ b/src/Omega_h_random_inline.hpp
@@ -64,9 +64,10 @@ class UnitUniformDistribution {
 
  private:
   OMEGA_H_INLINE void even_step() {
+    auto const saved_counter = counter[0];
     counter[0] >>= 1;
     state = run_philox_cbrng(counter, key);
-    counter[0] <<= 1;
+    counter[0] = saved_counter;
   }
   Few<std::uint64_t, 2> counter;
   std::uint64_t key;
-- 
2.43.0


From ad930fb6a5a972716d6fd23cd39d8f6e474736fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 07/28] fix: sort_by_magnitude did not update the running
 maximum, so triples could come out unsorted

---
 src/Omega_h_eigen.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_eigen.hpp b/src/Omega_h_eigen.hpp
index f666d33..437df5a 100644
--- a/src/Omega_h_eigen.hpp
+++ b/src/Omega_h_eigen.hpp
@@ -459,7 +459,10 @@ OMEGA_H_INLINE DiagDecomp<dim> sort_by_magnitude(DiagDecomp<dim> const dd) {
     auto max_m = std::abs(dd.l[perm[max_j]]);
     for (Int j = i + 1; j < dim; ++j) {
       auto m = std::abs(dd.l[perm[j]]);
-      if (m > max_m) max_j = j;
+      if (m > max_m) {
+        max_j = j;
+        max_m = m;
+      }
     }
     swap2(perm[i], perm[max_j]);
   }
-- 
2.43.0


From 0915c2daf30dca0474b11e5d19f50f30d2235e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 08/28] fix: ask_dual assumed simplices, so it aborted or
 answered wrongly on hypercube meshes

---
 src/Omega_h_adj.cpp  | 5 +++--
 src/Omega_h_adj.hpp  | 3 ++-
 src/Omega_h_mesh.cpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index 8b03448..b825acc 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -620,12 +620,13 @@ class elements_across_sides_count_functor {
 };
 
 Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed) {
+    Adj const sides2elems, Read<I8> const side_is_exposed,
+    Omega_h_Family const family) {
   OMEGA_H_TIME_FUNCTION;
   auto const elem_side2side = elems2sides.ab2b;
   auto const side2side_elems = sides2elems.a2ab;
   auto const side_elem2elem = sides2elems.ab2b;
-  Int const nsides_per_elem = dim + 1;
+  Int const nsides_per_elem = element_degree(family, dim, dim - 1);
   auto const nelems =
       divide_no_remainder(elem_side2side.size(), nsides_per_elem);
   Write<LO> degrees(nelems);
diff --git a/src/Omega_h_adj.hpp b/src/Omega_h_adj.hpp
index 61dbd0b..fdc00ef 100644
--- a/src/Omega_h_adj.hpp
+++ b/src/Omega_h_adj.hpp
@@ -96,7 +96,8 @@ Graph verts_across_edges(Adj const e2v, Adj const v2e);
 Graph edges_across_tris(Adj const f2e, Adj const e2f);
 Graph edges_across_tets(Adj const r2e, Adj const e2r);
 Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed);
+    Adj const sides2elems, Read<I8> const side_is_exposed,
+    Omega_h_Family const family = OMEGA_H_SIMPLEX);
 
 template <Int nhhl>
 OMEGA_H_DEVICE Few<LO, nhhl> gather_down(LOs const& hl2l, Int h) {
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..9649dd1 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -323,7 +323,7 @@ Adj Mesh::derive_adj(Int from, Int to) {
   } else {
     if (from == dim() && to == dim()) {
       return elements_across_sides(dim(), ask_adj(dim(), dim() - 1),
-          ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
+          ask_adj(dim() - 1, dim()), mark_exposed_sides(this), family());
     }
     if (from == VERT && to == VERT) {
       return verts_across_edges(ask_adj(EDGE, VERT), ask_adj(VERT, EDGE));
-- 
2.43.0


From 349d88cd4a592378067ad23f66b94ce6d7b38faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 09/28] fix: Mesh::get_tag(dim, i) accepted i equal to the
 number of tags and read past the end

---
 src/Omega_h_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 9649dd1..e44293f 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -216,7 +216,7 @@ Int Mesh::ntags(Int ent_dim) const {
 TagBase const* Mesh::get_tag(Int ent_dim, Int i) const {
   check_dim2(ent_dim);
   OMEGA_H_CHECK(0 <= i);
-  OMEGA_H_CHECK(i <= ntags(ent_dim));
+  OMEGA_H_CHECK(i < ntags(ent_dim));
   return tags_[ent_dim][static_cast<std::size_t>(i)].get();
 }
 
-- 
2.43.0


From d5ef0421628fa2feca4caa42513d76ecc933f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 10/28] fix: Future::completed() reported the opposite of
 MPI_Testall

---
 src/Omega_h_future.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_future.cpp b/src/Omega_h_future.cpp
index 32aa2a7..b967f1f 100644
--- a/src/Omega_h_future.cpp
+++ b/src/Omega_h_future.cpp
@@ -49,10 +49,10 @@ bool Future<T>::completed() {
   OMEGA_H_CHECK(
       MPI_SUCCESS == MPI_Testall(static_cast<int>(requests_.size()),
                          requests_.data(), &flag, MPI_STATUSES_IGNORE));
-  if (flag == 0) {
+  if (flag != 0) {
     status_ = Status::completed;
   }
-  return flag == 0;
+  return flag != 0;
 #else   // !OMEGA_H_USE_MPI
   return true;
 #endif  // OMEGA_H_USE_MPI
-- 
2.43.0


From 2e799beddb71cba1527001cccda330b456b5ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 11/28] fix: Comm::bcast_string broadcast the length from rank
 0 instead of root_rank

---
 src/Omega_h_comm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_comm.cpp b/src/Omega_h_comm.cpp
index bb45468..f2bcdbf 100644
--- a/src/Omega_h_comm.cpp
+++ b/src/Omega_h_comm.cpp
@@ -267,7 +267,7 @@ void Comm::bcast(T& x, int root_rank) const {
 void Comm::bcast_string(std::string& s, int root_rank) const {
 #ifdef OMEGA_H_USE_MPI
   I32 len = static_cast<I32>(s.length());
-  bcast(len);
+  bcast(len, root_rank);
   s.resize(static_cast<std::size_t>(len));
   CALL(MPI_Bcast(&s[0], len, MPI_CHAR, root_rank, impl_));
 #else
-- 
2.43.0


From 09ee527888379d02c99cf5a4b1d0e2cd556702bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 12/28] fix: Dist::iexch's callback kept a pointer to a Dist
 that could be gone (Mesh::isync_array)

---
 src/Omega_h_dist.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 771d228..a727c93 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -132,9 +132,11 @@ Future<T> Dist::iexch(Read<T> data, Int width) const {
     data = permute(data, items2content_[F], width);
   }
   auto future = comm_[F]->ialltoallv(data, msgs2content_[F], msgs2content_[R], width);
-  auto callback = [this,width](Read<T> buf) {
-    if (this->items2content_[R].exists()) {
-      buf = unmap(this->items2content_[R], buf, width);
+  // the future may outlive this Dist, so keep the map, not the Dist
+  auto const ritems2content = items2content_[R];
+  auto callback = [ritems2content, width](Read<T> buf) {
+    if (ritems2content.exists()) {
+      buf = unmap(ritems2content, buf, width);
     }
     return buf;
   };
-- 
2.43.0


From 7ce5b1f1ec710082d17eea5b370167f69d3eb170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 13/28] fix: Mesh::set_tag aborted on a part without entities
 (division by zero)

---
 src/Omega_h_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index e44293f..5fd1031 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -161,7 +161,11 @@ void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps,
 template <typename T>
 void Mesh::set_tag(
     Int ent_dim, std::string const& name, Read<T> array, bool internal) {
-  this->add_tag(ent_dim, name, divide_no_remainder(array.size(), nents(ent_dim)), array, internal);
+  /* a part of the mesh may be empty: its tags still have components */
+  auto const ncomps = (nents(ent_dim) == 0)
+      ? get_tagbase(ent_dim, name)->ncomps()
+      : divide_no_remainder(array.size(), nents(ent_dim));
+  this->add_tag(ent_dim, name, ncomps, array, internal);
 }
 
 void Mesh::react_to_set_tag(Int ent_dim, std::string const& name) {
-- 
2.43.0


From 36373c33585e87246afd796cfeb381947a5346ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 14/28] fix: several ghost layers on a hypercube mesh aborted
 (ghost_mesh assumed simplices)

---
 src/Omega_h_ghost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_ghost.cpp b/src/Omega_h_ghost.cpp
index 5f72da2..e190016 100644
--- a/src/Omega_h_ghost.cpp
+++ b/src/Omega_h_ghost.cpp
@@ -1,5 +1,6 @@
 #include "Omega_h_ghost.hpp"
 
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
@@ -89,7 +90,7 @@ static Dist close_up(
 }
 
 static Dist close_down(Mesh* mesh, Remotes old_use_owners, Dist elems2owners) {
-  auto nverts_per_elem = mesh->dim() + 1;
+  auto nverts_per_elem = element_degree(mesh->family(), mesh->dim(), VERT);
   auto owners2elems = elems2owners.invert();
   auto new_use_owners = owners2elems.exch(old_use_owners, nverts_per_elem);
   Dist uses2old_owners(mesh->comm(), new_use_owners, mesh->nents(VERT));
-- 
2.43.0


From 23b3a50248c6638321531d3f74dff0d5d42caa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 15/28] fix: binary::read drops class sets that have no members

---
 src/Omega_h_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 2febe4b..4d22982 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -349,13 +349,14 @@ static void read_sets(std::istream& stream, Mesh* mesh, bool needs_swapping) {
   for (I32 i = 0; i < n; ++i) {
     std::string name;
     read(stream, name, needs_swapping);
+    auto& pairs = mesh->class_sets[name];
     I32 npairs;
     read_value(stream, npairs, needs_swapping);
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       read_value(stream, pair.dim, needs_swapping);
       read_value(stream, pair.id, needs_swapping);
-      mesh->class_sets[name].push_back(pair);
+      pairs.push_back(pair);
     }
   }
 }
-- 
2.43.0


From 46a271d121718e7c947a6ca2fb640d28ed225923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:09 +0000
Subject: [PATCH 16/28] fix: base64::decode read outside its table for
 characters above 127

---
 src/Omega_h_base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_base64.cpp b/src/Omega_h_base64.cpp
index 61d210d..a4c58df 100644
--- a/src/Omega_h_base64.cpp
+++ b/src/Omega_h_base64.cpp
@@ -71,7 +71,7 @@ unsigned char UC(T val) {
 void decode_4(char const* in, unsigned char* out, std::size_t nout = 3) {
   unsigned char val[4];
   for (unsigned i = 0; i < 4; ++i) {
-    val[i] = char_to_value[U(in[i])];
+    val[i] = char_to_value[UC(in[i])];
     OMEGA_H_CHECK(val[i] < 64);
   }
   /* cast it all !
-- 
2.43.0


From 7a65120c5c2171f5eaf6caab26f95e475a3f573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:09 +0000
Subject: [PATCH 17/28] fix: parse_tag took <name/> for a start tag

---
 src/Omega_h_xml_lite.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_xml_lite.cpp b/src/Omega_h_xml_lite.cpp
index 9ca67e1..470e6ad 100644
--- a/src/Omega_h_xml_lite.cpp
+++ b/src/Omega_h_xml_lite.cpp
@@ -46,9 +46,10 @@ bool parse_tag(std::string const& line, xml_lite::Tag* tag_out) {
       case 3:
         if (c == ' ')
           state = 4;
-        else if (c == '/')
+        else if (c == '/') {
+          tag.type = xml_lite::Tag::SELF_CLOSING;
           state = 8;
-        else if (c == '>')
+        } else if (c == '>')
           state = 9;
         else
           tag.elem_name.push_back(c);
-- 
2.43.0


From 707ef8b9f23cbb193c74ccf74a742d100af90647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 18/28] fix: remove_all followed symbolic links and deleted
 what they point to

---
 src/Omega_h_filesystem.cpp | 56 +++++++++++++++++++++-----------------
 src/Omega_h_filesystem.hpp |  1 +
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index b3bc84b..ada20ca 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -124,6 +124,8 @@ file_status status(path const& p) {
   return file_status(type);
 }
 
+file_status symlink_status(path const& p) { return status(p); }
+
 #else
 
 bool create_directory(path const& p) {
@@ -213,6 +215,17 @@ struct IteratorImpl {
   ::dirent* entry;
 };
 
+static file_status status_from_mode(::mode_t mode) {
+  if (S_ISREG(mode)) return file_status(file_type::regular);
+  if (S_ISDIR(mode)) return file_status(file_type::directory);
+  if (S_ISLNK(mode)) return file_status(file_type::symlink);
+  if (S_ISBLK(mode)) return file_status(file_type::block);
+  if (S_ISCHR(mode)) return file_status(file_type::character);
+  if (S_ISFIFO(mode)) return file_status(file_type::fifo);
+  if (S_ISSOCK(mode)) return file_status(file_type::socket);
+  return file_status(file_type::unknown);
+}
+
 file_status status(path const& p) {
   errno = 0;
   struct ::stat buf;
@@ -220,22 +233,17 @@ file_status status(path const& p) {
   if (ret != 0) {
     throw filesystem_error(errno, "status");
   }
-  file_type type;
-  if (buf.st_mode & S_IFREG)
-    type = file_type::regular;
-  else if (buf.st_mode & S_IFDIR)
-    type = file_type::directory;
-  else if (buf.st_mode & S_IFLNK)
-    type = file_type::symlink;
-  else if (buf.st_mode & S_IFBLK)
-    type = file_type::block;
-  else if (buf.st_mode & S_IFCHR)
-    type = file_type::character;
-  else if (buf.st_mode & S_IFIFO)
-    type = file_type::fifo;
-  else
-    throw filesystem_error(errno, "type_status");
-  return file_status(type);
+  return status_from_mode(buf.st_mode);
+}
+
+file_status symlink_status(path const& p) {
+  errno = 0;
+  struct ::stat buf;
+  int ret = ::lstat(p.c_str(), &buf);
+  if (ret != 0) {
+    throw filesystem_error(errno, "symlink_status");
+  }
+  return status_from_mode(buf.st_mode);
 }
 
 #endif
@@ -243,16 +251,14 @@ file_status status(path const& p) {
 // end of OS-specific stuff
 
 std::uintmax_t remove_all(path const& p) {
-  directory_iterator end;
   std::uintmax_t count = 0;
-  while (true) {
-    directory_iterator first(p);
-    if (first == end) break;
-    if (first->is_directory()) {
+  // symbolic links are removed, not followed
+  if (symlink_status(p).type() == file_type::directory) {
+    directory_iterator end;
+    while (true) {
+      directory_iterator first(p);
+      if (first == end) break;
       count += remove_all(first->path());
-    } else {
-      remove(first->path());
-      ++count;
     }
   }
   remove(p);
@@ -380,7 +386,7 @@ bool directory_entry::is_directory() const {
 }
 
 bool directory_entry::is_symlink() const {
-  return status(path_variable).type() == file_type::symlink;
+  return symlink_status(path_variable).type() == file_type::symlink;
 }
 
 directory_iterator::directory_iterator() : impl(new IteratorImpl()) {}
diff --git a/src/Omega_h_filesystem.hpp b/src/Omega_h_filesystem.hpp
index 18e2b17..5cb0381 100644
--- a/src/Omega_h_filesystem.hpp
+++ b/src/Omega_h_filesystem.hpp
@@ -82,6 +82,7 @@ class file_status {
 };
 
 file_status status(path const& p);
+file_status symlink_status(path const& p);
 
 class directory_entry {
  public:
-- 
2.43.0


From 1d24218a58df6fc7619879de20789180499970fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 19/28] fix: directory_iterator moved from an uninitialized
 pointer and compared through a null entry

---
 src/Omega_h_filesystem.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index ada20ca..d7986a9 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -101,7 +101,8 @@ struct IteratorImpl {
   }
   bool is_end() { return !entry_is_good; }
   bool equal(IteratorImpl const& other) const {
-    if (!entry_is_good && !other.entry_is_good) return true;
+    if (!entry_is_good || !other.entry_is_good)
+      return !entry_is_good && !other.entry_is_good;
     if (root.impl != other.root.impl) return false;
     return 0 == strcmp(entry.cFileName, other.entry.cFileName);
   }
@@ -206,7 +207,8 @@ struct IteratorImpl {
   }
   bool is_end() { return entry == nullptr; }
   bool equal(IteratorImpl const& other) const {
-    if (entry == nullptr && other.entry == nullptr) return true;
+    if (entry == nullptr || other.entry == nullptr)
+      return entry == other.entry;
     if (root.impl != other.root.impl) return false;
     return 0 == strcmp(entry->d_name, other.entry->d_name);
   }
@@ -391,9 +393,8 @@ bool directory_entry::is_symlink() const {
 
 directory_iterator::directory_iterator() : impl(new IteratorImpl()) {}
 
-directory_iterator::directory_iterator(directory_iterator&& other) {
-  delete impl;
-  impl = other.impl;
+directory_iterator::directory_iterator(directory_iterator&& other)
+    : impl(other.impl), entry(other.entry) {
   other.impl = new IteratorImpl();
 }
 
-- 
2.43.0


From 39a4e915e872b053a328560e4464a2cb49db2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 20/28] fix: the parent of a path without directories was the
 path itself, so files next to it were not found

---
 src/Omega_h_filesystem.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_filesystem.cpp b/src/Omega_h_filesystem.cpp
index d7986a9..1da1062 100644
--- a/src/Omega_h_filesystem.cpp
+++ b/src/Omega_h_filesystem.cpp
@@ -290,7 +290,8 @@ path path::filename() const {
 
 path path::parent_path() const {
   auto const last_sep_pos = impl.find_last_of(preferred_separator);
-  if (last_sep_pos == std::string::npos) return impl;
+  if (last_sep_pos == std::string::npos) return path();
+  if (last_sep_pos == 0) return impl.substr(0, 1);
   return impl.substr(0, last_sep_pos);
 }
 
@@ -321,20 +322,25 @@ path path::stem() const {
   return filename_str.substr(0, last_dot_pos);
 }
 
+static void append_separator(std::string& s) {
+  if (!s.empty() && s.back() != path::preferred_separator)
+    s.push_back(path::preferred_separator);
+}
+
 path& path::operator/=(path const& p) {
-  impl.push_back(preferred_separator);
+  append_separator(impl);
   impl += p.impl;
   return *this;
 }
 
 path& path::operator/=(std::string const& s) {
-  impl.push_back(preferred_separator);
+  append_separator(impl);
   impl += s;
   return *this;
 }
 
 path& path::operator/=(const char* s) {
-  impl.push_back(preferred_separator);
+  append_separator(impl);
   impl += s;
   return *this;
 }
-- 
2.43.0


From 829cd7aaab994c2724a16d4aa709d15b9f2c7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 21/28] fix: a flag's last argument was taken for a flag when
 it has the name of one

---
 src/Omega_h_cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_cmdline.cpp b/src/Omega_h_cmdline.cpp
index 6941e46..7dc8902 100644
--- a/src/Omega_h_cmdline.cpp
+++ b/src/Omega_h_cmdline.cpp
@@ -161,6 +161,7 @@ bool CmdLine::parse(int* p_argc, char** argv, bool should_print) {
           return false;
         }
         parsed_by_flag = true;
+        break;
       }
     }
     if (parsed_by_flag) {
-- 
2.43.0


From f97c93f364a386309da44148a9d1b325743d62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 22/28] fix: comparing arrays that differ only by not-a-number
 entries read out of bounds

---
 src/Omega_h_compare.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 01caaef..c7e2a13 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -129,7 +129,8 @@ struct CompareArrays<Real> {
     auto global_start = comm->exscan(GO(ah.size()), OMEGA_H_SUM);
     auto global_max_diff = comm->allreduce(max_diff, OMEGA_H_MAX);
     I32 rank_cand = ArithTraits<I32>::max();
-    if (max_diff == global_max_diff) rank_cand = comm->rank();
+    // not-a-number entries differ but have no largest difference
+    if (max_i != -1 && max_diff == global_max_diff) rank_cand = comm->rank();
     auto best_rank = comm->allreduce(rank_cand, OMEGA_H_MIN);
     if (comm->rank() == best_rank) {
       auto global_max_i = global_start + max_i;
-- 
2.43.0


From c7ca429cd7cbaa04791ac7f0d09a62529b9908c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 23/28] fix: the exodiff command file lost the section after a
 variables section

---
 src/Omega_h_compare.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index c7e2a13..f93a5e3 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -341,6 +341,14 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
   Int linenum = 1;
   Int variables_dim = -1;
   VarCompareOpts variables_opts;
+  bool variables_listed = false;
+  // a section that lists no variables means all of them
+  auto include_all = [&](Int dim) {
+    for (Int i = 0; i < mesh->ntags(dim); ++i) {
+      auto tagbase = mesh->get_tag(dim, i);
+      p_opts->tags2opts[dim].insert({tagbase->name(), variables_opts});
+    }
+  };
   for (std::string line; std::getline(file, line);) {
     std::stringstream line_stream(line);
     if (line.empty()) continue;
@@ -348,7 +356,13 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     for (std::string token; line_stream >> token;) tokens.push_back(token);
     if (tokens.empty()) continue;
     if (tokens[0][0] == '#') continue;
+    if (variables_dim != -1 && line[0] != '\t') {
+      // the variables section ends here
+      if (!variables_listed) include_all(variables_dim);
+      variables_dim = -1;
+    }
     if (variables_dim != -1 && line[0] == '\t') {
+      variables_listed = true;
       auto name = tokens[0];
       if (name[0] == '!') {
         name = name.substr(1, std::string::npos);
@@ -373,13 +387,6 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
             parse_compare_opts(tokens, 1, variables_opts, path, linenum);
         p_opts->tags2opts[variables_dim][name] = variable_opts;
       }
-    } else if (variables_dim != -1 && line[0] != '\t' &&
-               p_opts->tags2opts[variables_dim].empty()) {
-      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-        auto tagbase = mesh->get_tag(variables_dim, i);
-        p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-      }
-      variables_dim = -1;
     } else if (tokens[0] == "COORDINATES") {
       auto opts = parse_compare_opts(tokens, 1, all_defaults, path, linenum);
       p_opts->tags2opts[VERT]["coordinates"] = opts;
@@ -396,8 +403,9 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       }
       std::size_t start = 2;
       bool do_all = false;
+      variables_listed = false;
       if (tokens.size() > 2 && tokens[2] == "(all)") {
-        do_all = true;
+        do_all = variables_listed = true;
         ++start;
       }
       variables_opts =
@@ -411,12 +419,7 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     }
     ++linenum;
   }
-  if (variables_dim != -1 && p_opts->tags2opts[variables_dim].empty()) {
-    for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-      auto tagbase = mesh->get_tag(variables_dim, i);
-      p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-    }
-  }
+  if (variables_dim != -1 && !variables_listed) include_all(variables_dim);
 }
 
 void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
-- 
2.43.0


From 3f319c06505c46277abf6a2440aa8a1983c0f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 24/28] fix: compare_meshes aborted on tags of the same name
 and different type

---
 src/Omega_h_compare.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index f93a5e3..be40e3c 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -232,6 +232,15 @@ Omega_h_Comparison compare_meshes(
         result = OMEGA_H_DIFF;
         continue;
       }
+      auto b_tag = b->get_tagbase(dim, name);
+      if (b_tag->type() != tag->type() || b_tag->ncomps() != tag->ncomps()) {
+        if (should_print) {
+          std::cout << topological_singular_name(a->family(), dim) << " tag \""
+                    << name << "\" has different types\n";
+        }
+        result = OMEGA_H_DIFF;
+        continue;
+      }
       auto ncomps = tag->ncomps();
       auto tag_opts = opts.tag_opts(dim, name);
       bool ok = false;
-- 
2.43.0


From 8dd9791712d81b38fd8d5aa1bb974961c9342d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:04 +0000
Subject: [PATCH 25/28] fix: repro_sum of empty arrays left its profiling frame
 open

---
 src/Omega_h_array_ops.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index da51081..95d0f6a 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -541,19 +541,18 @@ Real repro_sum(Reals a) {
   if (a.size() == 0) {
     return 0.0;
   }
-  begin_code("repro_sum");
+  ScopedTimer timer("repro_sum");
   int expo = max_exponent(a);
   auto const init = ArithTraits<int>::min();
   if (expo == init) return 0.0;
   double unit = exp2(double(expo - MANTISSA_BITS));
   Int128 fixpt_sum = int128_sum(a, unit);
   double ret = fixpt_sum.to_double(unit);
-  end_code();
   return ret;
 }
 
 Real repro_sum(CommPtr comm, Reals a) {
-  begin_code("repro_sum(comm)");
+  ScopedTimer timer("repro_sum(comm)");
   auto const init = ArithTraits<int>::min();
   auto expo0 = max_exponent(a);
   int expo = comm->allreduce(expo0, OMEGA_H_MAX);
@@ -562,7 +561,6 @@ Real repro_sum(CommPtr comm, Reals a) {
   Int128 fixpt_sum = int128_sum(a, unit);
   fixpt_sum = comm->add_int128(fixpt_sum);
   double ret = fixpt_sum.to_double(unit);
-  end_code();
   return ret;
 }
 
-- 
2.43.0


From 3f05f255d103b98ae5c789aad5be670894ae99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 26/28] fix: enforce_2to1_refine made one pass in element
 order, reading marks not yet set

---
 src/Omega_h_amr.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/Omega_h_amr.cpp b/src/Omega_h_amr.cpp
index bd31771..00914c2 100644
--- a/src/Omega_h_amr.cpp
+++ b/src/Omega_h_amr.cpp
@@ -1,6 +1,7 @@
 #include <Omega_h_amr.hpp>
 #include <Omega_h_amr_topology.hpp>
 #include <Omega_h_amr_transfer.hpp>
+#include <Omega_h_array_ops.hpp>
 #include <Omega_h_for.hpp>
 #include <Omega_h_globals.hpp>
 #include <Omega_h_hypercube.hpp>
@@ -31,8 +32,7 @@ void remove_non_leaf_uses(Mesh* mesh) {
 
 static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
     Adj bridges2elems, Bytes is_interior, Bytes is_bridge_leaf,
-    Int nbridges_per_elem, Children children, Bytes elems_are_marked,
-    Write<Byte> one_level_mark) {
+    Int nbridges_per_elem, Children children, Bytes one_level_mark) {
   Byte mark = 0;
   for (Int b = 0; b < nbridges_per_elem; ++b) {
     auto bridge = elems2bridges.ab2b[elem * nbridges_per_elem + b];
@@ -46,7 +46,6 @@ static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
       auto child_adj_elem_end = bridges2elems.a2ab[child + 1];
       OMEGA_H_CHECK((child_adj_elem_end - child_adj_elem_begin) == 1);
       auto child_adj_elem = bridges2elems.ab2b[child_adj_elem_begin];
-      if (elems_are_marked[child_adj_elem]) mark = 1;
       if (one_level_mark[child_adj_elem]) mark = 1;
     }
   }
@@ -64,19 +63,27 @@ Bytes enforce_2to1_refine(Mesh* mesh, Int bridge_dim, Bytes elems_are_marked) {
   auto nbridges_per_elem = Omega_h::hypercube_degree(elem_dim, bridge_dim);
   auto is_interior = Omega_h::mark_by_class_dim(mesh, bridge_dim, elem_dim);
   auto children = mesh->ask_children(bridge_dim, bridge_dim);
-  Write<Byte> one_level_mark(mesh->nelems());
-  auto f = OMEGA_H_LAMBDA(LO elem) {
-    if (!is_elem_leaf[elem]) {
-      one_level_mark[elem] = 0;
-    } else if (elems_are_marked[elem]) {
-      one_level_mark[elem] = 1;
-    } else {
-      one_level_mark[elem] = should_elem_be_refined(elem, elems2bridges,
-          bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
-          children, elems_are_marked, one_level_mark);
-    }
-  };
-  Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+  auto one_level_mark = land_each(is_elem_leaf, elems_are_marked);
+  // marking an element can require its coarser neighbors to be marked as well,
+  // so repeat until nothing changes
+  while (true) {
+    Write<Byte> next_mark(mesh->nelems());
+    auto f = OMEGA_H_LAMBDA(LO elem) {
+      if (!is_elem_leaf[elem]) {
+        next_mark[elem] = 0;
+      } else if (one_level_mark[elem]) {
+        next_mark[elem] = 1;
+      } else {
+        next_mark[elem] = should_elem_be_refined(elem, elems2bridges,
+            bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
+            children, one_level_mark);
+      }
+    };
+    Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+    auto is_done = (Bytes(next_mark) == one_level_mark);
+    one_level_mark = next_mark;
+    if (is_done) break;
+  }
   return one_level_mark;
 }
 
-- 
2.43.0


From 17d711614da67b34fdf0200b118e99788cd01ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 27/28] fix: amr inheritance of tags with several components
 wrote out of bounds

---
 src/Omega_h_amr_transfer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_amr_transfer.cpp b/src/Omega_h_amr_transfer.cpp
index c339943..732b582 100644
--- a/src/Omega_h_amr_transfer.cpp
+++ b/src/Omega_h_amr_transfer.cpp
@@ -139,7 +139,7 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
   Few<Write<T>, 4> new_data;
   auto ncomps = old_mesh->get_tag<T>(0, name)->ncomps();
   for (Int prod_dim = 0; prod_dim <= old_mesh->dim(); ++prod_dim) {
-    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim), -1);
+    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim) * ncomps, -1);
     auto old_data = old_mesh->get_array<T>(prod_dim, name);
     auto same_data =
         read(unmap(same_ents2old_ents[prod_dim], old_data, ncomps));
@@ -153,7 +153,10 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
       auto parent_ent = parents.parent_idx[prod_ent];
       auto code = parents.codes[prod_ent];
       auto parent_dim = code_parent_dim(code);
-      new_data[prod_dim][prod_ent] = new_data[parent_dim][parent_ent];
+      for (Int comp = 0; comp < ncomps; ++comp) {
+        new_data[prod_dim][prod_ent * ncomps + comp] =
+            new_data[parent_dim][parent_ent * ncomps + comp];
+      }
     };
     parallel_for(prods2new_ents[prod_dim].size(), f);
     new_mesh->add_tag(
-- 
2.43.0


From 5ff1ef2a34cb97a2b08d4cc5ff116e3804ef345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 28/28] fix: amr derefinement lost the parents of vertices, so
 the mesh could not be refined again

---
 src/Omega_h_unmap_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_unmap_mesh.cpp b/src/Omega_h_unmap_mesh.cpp
index 990ef61..0d9c098 100644
--- a/src/Omega_h_unmap_mesh.cpp
+++ b/src/Omega_h_unmap_mesh.cpp
@@ -67,7 +67,7 @@ void unmap_owners(Mesh* old_mesh, Mesh* new_mesh, Int ent_dim,
 
 void unmap_parents(Mesh* old_mesh, Mesh* new_mesh,
     LOs new_ents2old_ents_a[], Few<LOs, 4> old_ents2new_ents) {
-  for (Int ent_dim = 1; ent_dim <= new_mesh->dim(); ++ent_dim) {
+  for (Int ent_dim = 0; ent_dim <= new_mesh->dim(); ++ent_dim) {
     auto new_ents2old_ents = new_ents2old_ents_a[ent_dim];
     auto nnew_ents = new_ents2old_ents.size();
     Write<LO> new_parent_idx(nnew_ents, -1, "parent idx");
-- 
2.43.0

