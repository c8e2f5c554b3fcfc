From d1c8e865a9f34732f0241760e569fb498c7d022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 01/23] fix: treat edges of coplanar faces as intersecting
 edges

Pairs of identical (or opposite) faces are excluded from the intersection
tests, so an edge shared only by such pairs was not a border of the
classification.  When that edge is non-manifold in one of the meshes, tags
leaked across it and the result was wrong.
---
 include/kigumi/Corefine.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..a20f264 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -221,6 +221,20 @@ class Corefine {
       }
     }
 
+    // Coplanar faces are not tested for intersections, but their edges also belong to both meshes.
+    for (auto fi : left_.faces()) {
+      if (left_face_tags_.at(fi.idx()) == Face_tag::UNKNOWN) {
+        continue;
+      }
+
+      const auto& f = left_.face(fi);
+      for (std::size_t i = 0; i < 3; ++i) {
+        auto a = left_point_ids_.at(f.at(i).idx());
+        auto b = left_point_ids_.at(f.at((i + 1) % 3).idx());
+        edges.insert(make_edge(Vertex_index{a}, Vertex_index{b}));
+      }
+    }
+
     return edges;
   }
 
-- 
2.43.0


From 0d74bfac63a0581a2c2834c86988264526371461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 02/23] fix: triangulate overlapping coplanar faces alike
 regardless of orientation

The symbolic perturbation that breaks ties between cocircular points depends on
the direction of the projection normal, so coplanar faces of opposite
orientations could be triangulated differently inside their overlap.
---
 include/kigumi/Triangulation.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangulation.h b/include/kigumi/Triangulation.h
index a1e65c0..18780c4 100644
--- a/include/kigumi/Triangulation.h
+++ b/include/kigumi/Triangulation.h
@@ -4,18 +4,22 @@
 #include <CGAL/Kernel/global_functions.h>
 #include <CGAL/Projection_traits_3.h>
 #include <CGAL/Triangulation_vertex_base_with_info_2.h>
+#include <CGAL/enum.h>
+#include <CGAL/number_utils.h>
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_region.h>
 
 #include <array>
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <stdexcept>
+#include <utility>
 
 namespace kigumi {
 
 template <class K>
 class Triangulation {
   using Point = typename K::Point_3;
+  using Vector = typename K::Vector_3;
   using CDT_traits = CGAL::Projection_traits_3<K>;
   using Vb = CGAL::Triangulation_vertex_base_with_info_2<std::size_t, CDT_traits>;
   using Fb = CGAL::Constrained_triangulation_face_base_2<CDT_traits>;
@@ -29,7 +33,12 @@ class Triangulation {
 
   Triangulation(Triangle_region f, const Point& pa, const Point& pb, const Point& pc, std::size_t a,
                 std::size_t b, std::size_t c)
-      : f_{f}, cdt_{make_cdt_traits(pa, pb, pc)} {
+      : f_{f},
+        // Cocircular points are triangulated depending on the direction of the projection axes.
+        // Project coplanar faces with opposite orientations along the same direction, so that
+        // their overlapping parts are triangulated in the same way.
+        flipped_{is_negative(CGAL::normal(pa, pb, pc))},
+        cdt_{flipped_ ? make_cdt_traits(pa, pc, pb) : make_cdt_traits(pa, pb, pc)} {
     // To keep id_to_vh_ small, we do not insert these vertices into it.
     vhs_[0] = cdt_.insert_outside_affine_hull(pa);
     vhs_[0]->info() = a;
@@ -46,6 +55,9 @@ class Triangulation {
       auto a = Vertex_index{it->vertex(0)->info()};
       auto b = Vertex_index{it->vertex(1)->info()};
       auto c = Vertex_index{it->vertex(2)->info()};
+      if (flipped_) {
+        std::swap(b, c);
+      }
       *faces++ = {a, b, c};
       ++count;
     }
@@ -128,11 +140,21 @@ class Triangulation {
     return it->second;
   }
 
+  static bool is_negative(const Vector& n) {
+    for (const auto& x : {n.x(), n.y(), n.z()}) {
+      if (auto sign = CGAL::sign(x); sign != CGAL::ZERO) {
+        return sign == CGAL::NEGATIVE;
+      }
+    }
+    return false;
+  }
+
   static CDT_traits make_cdt_traits(const Point& pa, const Point& pb, const Point& pc) {
     return CDT_traits{CGAL::normal(pa, pb, pc)};
   }
 
   Triangle_region f_{};
+  bool flipped_{};
   CDT cdt_;
   std::array<Vertex_handle, 3> vhs_;
   boost::unordered_flat_map<std::size_t, Vertex_handle> id_to_vh_;
-- 
2.43.0


From d4329d5b95f529a7a5b57f68527a59e32333f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 03/23] fix: do not classify faces across the outside of an
 open edge

---
 include/kigumi/Classify_faces_locally.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Classify_faces_locally.h b/include/kigumi/Classify_faces_locally.h
index 7caecd5..38e7134 100644
--- a/include/kigumi/Classify_faces_locally.h
+++ b/include/kigumi/Classify_faces_locally.h
@@ -91,7 +91,10 @@ class Classify_faces_locally {
     auto is_undefined_configuration = true;
     // At the end of the loop, the kth face is tagged as either interior or exterior.
     std::size_t k{};
-    for (std::size_t i = 0; i < faces_.size(); ++i) {
+    // Around an open edge of either mesh, two adjacent faces may be separated by the outside of the
+    // common convex region, where they cannot be compared. Leave them to the global classifier.
+    auto num_faces_to_compare = is_open_edge_of_either_mesh(m) ? 0 : faces_.size();
+    for (std::size_t i = 0; i < num_faces_to_compare; ++i) {
       auto j = (i + 1) % faces_.size();
       const auto& f = faces_.at(i);
       auto& f_data = m.data(f.fi);
@@ -241,6 +244,24 @@ class Classify_faces_locally {
     }
   };
 
+  bool is_open_edge_of_either_mesh(const Mixed_triangle_mesh<K, FaceData>& m) const {
+    int left_balance{};
+    int right_balance{};
+    bool found_left_face{};
+    bool found_right_face{};
+    for (const auto& f : faces_) {
+      auto sign = f.orientation == CGAL::COUNTERCLOCKWISE ? 1 : -1;
+      if (m.data(f.fi).from_left) {
+        left_balance += sign;
+        found_left_face = true;
+      } else {
+        right_balance += sign;
+        found_right_face = true;
+      }
+    }
+    return found_left_face && found_right_face && (left_balance != 0 || right_balance != 0);
+  }
+
   mutable std::vector<Face_around_edge> faces_;
   mutable Propagate_face_tags propagate_face_tags_;
 };
-- 
2.43.0


From 1980141b88f9df57b1ab4db58925f89a6cebdc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 04/23] fix: do not keep references to a finished operation's
 points in threads

---
 include/kigumi/Corefine.h     | 11 ++++++-----
 include/kigumi/Find_defects.h | 11 +++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index a20f264..54566db 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -62,9 +62,11 @@ class Corefine {
 
     std::size_t num_intersections{};
     parallel_do(
-        pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
+        pairs.begin(), pairs.end(),
+        std::tuple<std::vector<Intersection_info>, std::size_t, Face_face_intersection>{
+            std::vector<Intersection_info>{}, 0, Face_face_intersection{points_}},
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          auto& [local_infos, local_num_intersections, face_face_intersection] = local_state;
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
@@ -79,18 +81,17 @@ class Corefine {
           if (sym_inters.empty()) {
             return;
           }
-          auto& [local_infos, local_num_intersections] = local_state;
           local_infos.emplace_back(left_fi, right_fi, sym_inters);
           local_num_intersections += sym_inters.size();
         },
         [&](auto& local_state) {
-          auto& [local_infos, local_num_intersections] = local_state;
+          auto& local_infos = std::get<0>(local_state);
           if (infos_.empty()) {
             infos_ = std::move(local_infos);
           } else {
             infos_.insert(infos_.end(), local_infos.begin(), local_infos.end());
           }
-          num_intersections += local_num_intersections;
+          num_intersections += std::get<1>(local_state);
         });
 
     std::cout << "Constructing intersection points..." << std::endl;
diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..0ce716a 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -300,9 +300,11 @@ class Find_defects {
     const auto& tree = m.aabb_tree();
 
     parallel_do(
-        m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
-        [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+        m.faces_begin(), m.faces_end(),
+        std::pair<std::vector<Face_index>, Face_face_intersection<K>>{
+            std::vector<Face_index>{}, Face_face_intersection<K>{points}},
+        [&](auto fi, auto& local_state) {
+          auto& [local_fis, face_face_intersection] = local_state;
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
@@ -352,7 +354,8 @@ class Find_defects {
             }
           }
         },
-        [&](auto& local_fis) {
+        [&](auto& local_state) {
+          auto& local_fis = local_state.first;
           if (fis.empty()) {
             fis = std::move(local_fis);
           } else {
-- 
2.43.0


From ff76e01ff18d02cd0469695d9791d2076f43bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 05/23] fix: make face tags atomic during parallel
 classification

---
 include/kigumi/Mixed.h | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Mixed.h b/include/kigumi/Mixed.h
index 4625fbd..65afd23 100644
--- a/include/kigumi/Mixed.h
+++ b/include/kigumi/Mixed.h
@@ -4,12 +4,45 @@
 #include <kigumi/Triangle_mesh.h>
 #include <kigumi/Triangle_soup.h>
 
+#include <atomic>
+
 namespace kigumi {
 
+// A face tag that multiple threads can read and write during classification.
+class Atomic_face_tag {
+ public:
+  Atomic_face_tag() = default;
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  Atomic_face_tag(Face_tag tag) : tag_{tag} {}
+
+  ~Atomic_face_tag() = default;
+
+  Atomic_face_tag(const Atomic_face_tag& other) : tag_{Face_tag{other}} {}
+
+  Atomic_face_tag(Atomic_face_tag&& other) noexcept : tag_{Face_tag{other}} {}
+
+  // NOLINTNEXTLINE(cert-oop54-cpp)
+  Atomic_face_tag& operator=(const Atomic_face_tag& other) { return *this = Face_tag{other}; }
+
+  Atomic_face_tag& operator=(Atomic_face_tag&& other) noexcept { return *this = Face_tag{other}; }
+
+  Atomic_face_tag& operator=(Face_tag tag) {
+    tag_.store(tag, std::memory_order_relaxed);
+    return *this;
+  }
+
+  // NOLINTNEXTLINE(google-explicit-constructor)
+  operator Face_tag() const { return tag_.load(std::memory_order_relaxed); }
+
+ private:
+  std::atomic<Face_tag> tag_{};
+};
+
 template <class FaceData>
 struct Mixed_face_data {
   bool from_left{};
-  Face_tag tag{};
+  Atomic_face_tag tag{};
   FaceData data{};
 };
 
-- 
2.43.0


From 284984c6fbd996b03a2be87e3ec10cbf941ee9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 06/23] fix: do not read the exception of a parallel loop while
 it may be written

---
 include/kigumi/parallel_do.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..d563e00 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -31,6 +31,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -57,6 +58,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         post(local_state);
       } catch (...) {
         std::lock_guard lock{mutex};
+        failed = true;
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
         }
@@ -91,6 +93,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
   std::vector<std::thread> threads;
   std::atomic<std::size_t> next_index{};
+  std::atomic<bool> failed{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
 
@@ -106,12 +109,13 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
       } catch (...) {
         std::lock_guard lock{mutex};
+        failed = true;
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
         }
-- 
2.43.0


From c979370a3da811c6218571d4b5fa51f097016eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 07/23] fix: respect the thread limit in parallel loops without
 state

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index d563e00..133f4f3 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -82,8 +82,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From f069c82d024ac074ca8f0d319250b513edaaad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 08/23] fix: write a zero coordinate alike with both number
 types

mpz_export stores nothing for zero, while export_bits stores one zero byte, so
the two builds wrote different bytes, and the reader for cpp_rational read
beyond an empty buffer when given the former.
---
 include/kigumi/io.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..7818084 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -116,12 +116,16 @@ struct Read<boost::multiprecision::cpp_rational> {
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(num, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(den, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(den, buf.begin(), buf.end());
+    }
 
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
@@ -145,10 +149,11 @@ struct Write<mpq_class> {
 
     std::size_t count{};
 
-    buf.resize((mpz_sizeinbase(t.get_num().get_mpz_t(), 2) + 7) / 8);
+    // Zero is written as a single zero byte, for which mpz_export writes nothing.
+    buf.assign((mpz_sizeinbase(t.get_num().get_mpz_t(), 2) + 7) / 8, 0);
     mpz_export(buf.data(), &count, 1, 1, 0, 0, t.get_num().get_mpz_t());
-    kigumi_write<std::int32_t>(out, count);
-    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(count));
+    kigumi_write<std::int32_t>(out, buf.size());
+    out.write(reinterpret_cast<const char*>(buf.data()), static_cast<std::streamsize>(buf.size()));
 
     buf.resize((mpz_sizeinbase(t.get_den().get_mpz_t(), 2) + 7) / 8);
     mpz_export(buf.data(), &count, 1, 1, 0, 0, t.get_den().get_mpz_t());
-- 
2.43.0


From 4bc54af760379eb31a3acc19233d844fb0b9d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 09/23] fix: write the same bytes whether or not a point has
 been evaluated

A point whose coordinates are doubles was written as rationals if it was not
yet known to be so, and as doubles the second time or after reading it back.
---
 include/kigumi/Triangle_soup.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..8c8560c 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -158,7 +158,16 @@ struct Write<Triangle_soup<K, FaceData>> {
     for (auto vi : t.vertices()) {
       const auto& p = t.point(vi);
 
-      if (p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point()) {
+      auto is_double = [&p] {
+        const auto& a = p.approx();
+        return a.x().is_point() && a.y().is_point() && a.z().is_point();
+      };
+      if (!is_double()) {
+        // The approximation may become tight once the exact value is known.
+        p.exact();
+      }
+
+      if (is_double()) {
         kigumi_write<bool>(out, false);
         kigumi_write<double>(out, p.approx().x().inf());
         kigumi_write<double>(out, p.approx().y().inf());
-- 
2.43.0


From 00e3d8342e509b2445b66c398703b2fd327ed951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 10/23] fix: reject damaged regions and replace the target only
 on success

Reading appended to a non-empty target, changed it even on failure, accepted
unknown kinds, boundaries without faces, vertex indices out of range and
non-finite coordinates, and went on for up to 2^31 elements after the end of
the input.
---
 include/kigumi/Region.h        | 17 +++++++++++++++--
 include/kigumi/Triangle_soup.h | 35 ++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/include/kigumi/Region.h b/include/kigumi/Region.h
index 35b4640..90a1557 100644
--- a/include/kigumi/Region.h
+++ b/include/kigumi/Region.h
@@ -30,6 +30,10 @@ struct Read<Region_kind> {
   void operator()(std::istream& in, Region_kind& t) const {
     std::uint8_t x{};
     kigumi_read<std::uint8_t>(in, x);
+    if (x > static_cast<std::uint8_t>(Region_kind::BOUNDARY_DEFINED)) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
     t = static_cast<Region_kind>(x);
   }
 };
@@ -108,8 +112,17 @@ struct Write<Region<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Region<K, FaceData>> {
   void operator()(std::istream& in, Region<K, FaceData>& t) const {
-    kigumi_read<Region_kind>(in, t.kind_);
-    kigumi_read<Triangle_soup<K, FaceData>>(in, t.boundary_);
+    Region<K, FaceData> region;
+    kigumi_read<Region_kind>(in, region.kind_);
+    kigumi_read<Triangle_soup<K, FaceData>>(in, region.boundary_);
+    if (!in) {
+      return;
+    }
+    if (region.is_empty_or_full() != (region.boundary_.num_faces() == 0)) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
+    t = std::move(region);
   }
 };
 
diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 8c8560c..8693419 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -12,7 +12,9 @@
 #include <kigumi/io.h>
 #include <kigumi/mesh_utility.h>
 
+#include <algorithm>
 #include <boost/range/iterator_range.hpp>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <memory>
@@ -194,12 +196,13 @@ struct Write<Triangle_soup<K, FaceData>> {
 template <class K, class FaceData>
 struct Read<Triangle_soup<K, FaceData>> {
   void operator()(std::istream& in, Triangle_soup<K, FaceData>& t) const {
+    Triangle_soup<K, FaceData> soup;
     std::size_t num_vertices{};
     std::size_t num_faces{};
     kigumi_read<std::int32_t>(in, num_vertices);
     kigumi_read<std::int32_t>(in, num_faces);
 
-    for (std::size_t i = 0; i < num_vertices; ++i) {
+    for (std::size_t i = 0; i < num_vertices && in; ++i) {
       bool is_exact{};
       kigumi_read<bool>(in, is_exact);
 
@@ -210,7 +213,11 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<double>(in, x);
         kigumi_read<double>(in, y);
         kigumi_read<double>(in, z);
-        t.add_vertex({x, y, z});
+        if (!in || !std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) {
+          in.setstate(std::ios::failbit);
+          return;
+        }
+        soup.add_vertex({x, y, z});
       } else {
         CGAL::Exact_rational x;
         CGAL::Exact_rational y;
@@ -218,21 +225,33 @@ struct Read<Triangle_soup<K, FaceData>> {
         kigumi_read<CGAL::Exact_rational>(in, x);
         kigumi_read<CGAL::Exact_rational>(in, y);
         kigumi_read<CGAL::Exact_rational>(in, z);
-        t.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
-                      CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
+        if (!in) {
+          return;
+        }
+        soup.add_vertex({CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(x)},
+                         CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(y)},
+                         CGAL::Lazy_exact_nt<CGAL::Exact_rational>{std::move(z)}});
       }
     }
 
-    for (std::size_t i = 0; i < num_faces; ++i) {
+    for (std::size_t i = 0; i < num_faces && in; ++i) {
       Face face{};
       FaceData f_data{};
       kigumi_read<Vertex_index>(in, face[0]);
       kigumi_read<Vertex_index>(in, face[1]);
       kigumi_read<Vertex_index>(in, face[2]);
       kigumi_read<FaceData>(in, f_data);
-      auto fi = t.add_face(face);
-      t.data(fi) = f_data;
+      if (!in || std::any_of(face.begin(), face.end(),
+                             [&](Vertex_index vi) { return vi.idx() >= soup.num_vertices(); })) {
+        in.setstate(std::ios::failbit);
+        return;
+      }
+      auto fi = soup.add_face(face);
+      soup.data(fi) = f_data;
+    }
+
+    if (in) {
+      t = std::move(soup);
     }
   }
 };
-- 
2.43.0


From 8f5cdf4f2ac6cf0c943e71fb39854c63723257c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 11/23] fix: reject damaged rational numbers without allocating
 their claimed size

A length field alone could make the reader allocate 2 GB, and a zero
denominator terminated the process when built with GMP.
---
 include/kigumi/io.h | 49 ++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 7818084..a87014f 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <boost/endian/conversion.hpp>
 #include <cstdint>
 #include <iostream>
@@ -78,6 +79,22 @@ struct Read<bool> {
   }
 };
 
+// Reads a byte string preceded by its length.  The storage grows only with what the stream delivers.
+inline void kigumi_read_bytes(std::istream& in, std::vector<std::uint8_t>& buf) {
+  constexpr std::size_t max_chunk = 65536;
+
+  std::size_t count{};
+  kigumi_read<std::int32_t>(in, count);
+
+  buf.clear();
+  while (in && buf.size() < count) {
+    auto size = buf.size();
+    auto chunk = std::min(count - size, max_chunk);
+    buf.resize(size + chunk);
+    in.read(reinterpret_cast<char*>(buf.data() + size), static_cast<std::streamsize>(chunk));
+  }
+}
+
 #ifdef CGAL_USE_BOOST_MP
 
 #include <CGAL/boost_mp.h>
@@ -111,22 +128,22 @@ struct Read<boost::multiprecision::cpp_rational> {
 
     boost::multiprecision::cpp_int num;
     boost::multiprecision::cpp_int den;
-    std::size_t count{};
 
-    kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    kigumi_read_bytes(in, buf);
     if (!buf.empty()) {
       import_bits(num, buf.begin(), buf.end());
     }
 
-    kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
+    kigumi_read_bytes(in, buf);
     if (!buf.empty()) {
       import_bits(den, buf.begin(), buf.end());
     }
 
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
+
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
       t = -std::move(t);
@@ -172,17 +189,17 @@ struct Read<mpq_class> {
 
     mpz_class num;
     mpz_class den;
-    std::size_t count{};
 
-    kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(num.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    kigumi_read_bytes(in, buf);
+    mpz_import(num.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
 
-    kigumi_read<std::int32_t>(in, count);
-    buf.resize(count);
-    in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    kigumi_read_bytes(in, buf);
+    mpz_import(den.get_mpz_t(), buf.size(), 1, 1, 0, 0, buf.data());
+
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
-- 
2.43.0


From d9ad4bfb4140a45c1a774925eac1b367f9d44948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 12/23] fix: report failure to read an OBJ file

A device error ended the mesh silently; a directory was read as an empty mesh.
---
 include/kigumi/io/obj.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..8f3c374 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -87,6 +87,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
-- 
2.43.0


From 724b2aca11159b127bcb668dd688f0cf2bd6ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 13/23] fix: stop reading a list at the end of its line

A count beyond the tokens of the line exhausted memory or did not return.
---
 include/kigumi/io/off.h | 2 +-
 include/kigumi/io/ply.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..9e1977b 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -140,7 +140,7 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; i < count && iss; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..93eaa87 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -219,7 +219,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +237,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +245,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
-- 
2.43.0


From 0079b95e01990b3d2aca0623c6394a87a537a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 14/23] fix: reject text meshes with non-finite coordinates

---
 include/kigumi/io/ascii.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
-- 
2.43.0


From 231a9727f045351321a879c01b857642b0ed9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 15/23] fix: reject text meshes whose faces refer to vertices
 that do not exist

---
 include/kigumi/io/obj.h       |  6 ++++++
 include/kigumi/io/off.h       |  6 ++++++
 include/kigumi/io/ply.h       |  6 ++++++
 include/kigumi/mesh_utility.h | 13 +++++++++++++
 4 files changed, 31 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 8f3c374..dc80449 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -5,6 +5,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <fstream>
 #include <iostream>
@@ -92,6 +93,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::has_valid_indices(new_soup)) {
+    std::cerr << "vertex index out of range" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 9e1977b..b08ffc2 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -171,6 +172,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::has_valid_indices(new_soup)) {
+    std::cerr << "vertex index out of range" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 93eaa87..36986fe 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -4,6 +4,7 @@
 #include <kigumi/Mesh_indices.h>
 #include <kigumi/Triangle_soup.h>
 #include <kigumi/io/ascii.h>
+#include <kigumi/mesh_utility.h>
 
 #include <cstdint>
 #include <fstream>
@@ -274,6 +275,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     return false;
   }
 
+  if (!internal::has_valid_indices(new_soup)) {
+    std::cerr << "vertex index out of range" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
diff --git a/include/kigumi/mesh_utility.h b/include/kigumi/mesh_utility.h
index 9419df7..ce1e12a 100644
--- a/include/kigumi/mesh_utility.h
+++ b/include/kigumi/mesh_utility.h
@@ -45,6 +45,19 @@ CGAL::Oriented_side oriented_side_of_face_supporting_plane(const Triangle_soup<K
   return CGAL::orientation(m.point(f[0]), m.point(f[1]), m.point(f[2]), p);
 }
 
+// Returns whether every face refers to existing vertices only.
+template <class K, class FaceData>
+bool has_valid_indices(const Triangle_soup<K, FaceData>& m) {
+  for (auto fi : m.faces()) {
+    for (auto vi : m.face(fi)) {
+      if (vi.idx() >= m.num_vertices()) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 }  // namespace internal
 
 }  // namespace kigumi
-- 
2.43.0


From d32fdd3e215e6901b3b9c3810546108121821ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 16/23] fix: report failure to read the end of an OFF or PLY
 file

---
 include/kigumi/io/off.h | 5 +++++
 include/kigumi/io/ply.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index b08ffc2..5ccff1b 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -167,6 +167,11 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   if (state != Off_reading_state::END) {
     std::cerr << "unexpected end of file" << std::endl;
     return false;
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 36986fe..b490e59 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -270,6 +270,11 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read" << std::endl;
+    return false;
+  }
+
   if (element_it != elements.end()) {
     std::cerr << "unexpected end of file" << std::endl;
     return false;
-- 
2.43.0


From 974fb92b383060816d1f4f18d00c8b2ef501a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 17/23] fix: report failure to write buffered data

A mesh smaller than the stream's buffer was written only when the stream was
closed, after success had been reported.
---
 include/kigumi/Region_io.h | 1 +
 include/kigumi/io/obj.h    | 1 +
 include/kigumi/io/off.h    | 1 +
 include/kigumi/io/ply.h    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..eedc26b 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -34,6 +34,7 @@ bool write_kigumi_region(std::ostream& os, const Region<K, FaceData>& region) {
     return false;
   }
   kigumi_write<Region<K, FaceData>>(os, region);
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index dc80449..f1b14bc 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -141,6 +141,7 @@ bool write_obj(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 5ccff1b..1560d32 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -221,6 +221,7 @@ bool write_off(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index b490e59..4f0e592 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -332,6 +332,7 @@ bool write_ply(std::ostream& os, const Triangle_soup<K, FaceData>& soup) {
     os << "3 " << f[0].idx() << ' ' << f[1].idx() << ' ' << f[2].idx() << '\n';
   }
 
+  os.flush();
   return os.good();
 }
 
-- 
2.43.0


From d5f64922333815bad125cb936f3e53628a9fdd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 18/23] fix: rebuild a mesh's search tree after faces are added

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 8693419..b42ccbc 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -86,6 +86,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From cba758ec4c6ddb26b539a1d6be2dd5e584e3edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 19/23] fix: do not list a face among the faces around it

---
 include/kigumi/Mesh_iterators.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Mesh_iterators.h b/include/kigumi/Mesh_iterators.h
index 20e7dd7..6cde95a 100644
--- a/include/kigumi/Mesh_iterators.h
+++ b/include/kigumi/Mesh_iterators.h
@@ -129,7 +129,11 @@ class Face_around_face_iterator
                             Face_around_edge_iterator end1, Face_around_edge_iterator it2,
                             Face_around_edge_iterator end2, Face_around_edge_iterator it3,
                             Face_around_edge_iterator end3)
-      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {}
+      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {
+    if (dereference() == fi_) {
+      increment();
+    }
+  }
 
  private:
   friend boost::iterator_core_access;
-- 
2.43.0


From 443cc814ff4fd986c2bdbe939909b30acc65dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 20/23] fix: allow finalizing a mesh again

---
 include/kigumi/Triangle_mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 10d6d56..00a7344 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -116,6 +116,8 @@ class Triangle_mesh {
 
     parallel_sort(map.begin(), map.end());
 
+    face_indices_.clear();
+    indices_.clear();
     face_indices_.reserve(3 * faces_.size());
     indices_.reserve(points_.size() + 1);
     std::size_t index{};
-- 
2.43.0


From 955e6b626b26e8879ad03ab68d413a9e98aec155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 21/23] fix: report failure to print the defects

---
 cli/defects_command.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/defects_command.cc b/cli/defects_command.cc
index 6aa85e2..f9784ea 100644
--- a/cli/defects_command.cc
+++ b/cli/defects_command.cc
@@ -100,4 +100,8 @@ void Defects_command::operator()(const std::vector<std::string>& args) const {
   if (!overlapping_faces.empty()) {
     std::cout << overlapping_faces.size() << " overlapping faces" << std::endl;
   }
+
+  if (!std::cout) {
+    throw std::runtime_error("writing failed: standard output");
+  }
 }
-- 
2.43.0


From 854e0a79c98ac932a06f1804c17ecc8f8f972392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 22/23] fix: determine the side of a point that sees edges in
 front of all centroids

The side is found by sighting the centroids of the faces.  Where each of
these sight lines meets an edge or a vertex first, which closed meshes
permit, an exception was thrown.  Sight further points of the faces then.
---
 include/kigumi/Side_of_triangle_soup.h | 41 ++++++++++++++++++++------
 include/kigumi/mesh_utility.h          | 10 +++++++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/include/kigumi/Side_of_triangle_soup.h b/include/kigumi/Side_of_triangle_soup.h
index 1534739..ae37d87 100644
--- a/include/kigumi/Side_of_triangle_soup.h
+++ b/include/kigumi/Side_of_triangle_soup.h
@@ -8,7 +8,9 @@
 #include <kigumi/mesh_utility.h>
 
 #include <algorithm>
+#include <array>
 #include <iterator>
+#include <optional>
 #include <stdexcept>
 #include <variant>
 #include <vector>
@@ -30,13 +32,41 @@ class Side_of_triangle_soup {
       throw std::runtime_error("triangle soup must not be empty");
     }
 
+    // The centroids of the faces (n = 3) nearly always include one that can be sighted without
+    // touching an edge or a vertex first. Otherwise, sight other points in the faces.
+    for (auto n = 3; n <= MAX_WEIGHT_SUM; ++n) {
+      for (auto u = 1; u <= n - 2; ++u) {
+        for (auto v = 1; v <= n - u - 1; ++v) {
+          auto side = sight_faces(soup, p, {u, v, n - u - v});
+          if (side) {
+            return *side;
+          }
+        }
+      }
+    }
+
+    // Should not happen.
+    throw std::runtime_error("cannot determine the side of the point");
+  }
+
+ private:
+  static constexpr int MAX_WEIGHT_SUM = 12;
+
+  struct Intersection {
+    FT distance;
+    Face_index fi;
+  };
+
+  // Sights the point of each face that has the given barycentric coordinates (up to a factor).
+  std::optional<CGAL::Oriented_side> sight_faces(const Triangle_soup& soup, const Point& p,
+                                                 const std::array<int, 3>& weights) const {
     const auto& tree = soup.aabb_tree();
 
     for (auto fi_trg : soup.faces()) {
       leaves_.clear();
       intersections_.clear();
 
-      auto p_trg = internal::face_centroid(soup, fi_trg);
+      auto p_trg = internal::face_barycenter(soup, fi_trg, weights);
 
       if (p == p_trg) {
         return CGAL::ON_ORIENTED_BOUNDARY;
@@ -86,16 +116,9 @@ class Side_of_triangle_soup {
       return internal::oriented_side_of_face_supporting_plane(soup, intersections_.at(0).fi, p);
     }
 
-    // Should not happen.
-    throw std::runtime_error("cannot determine the side of the point");
+    return std::nullopt;
   }
 
- private:
-  struct Intersection {
-    FT distance;
-    Face_index fi;
-  };
-
   mutable std::vector<const Leaf*> leaves_;
   mutable std::vector<Intersection> intersections_;
 };
diff --git a/include/kigumi/mesh_utility.h b/include/kigumi/mesh_utility.h
index ce1e12a..37f9671 100644
--- a/include/kigumi/mesh_utility.h
+++ b/include/kigumi/mesh_utility.h
@@ -5,6 +5,8 @@
 #include <CGAL/enum.h>
 #include <kigumi/Mesh_indices.h>
 
+#include <array>
+
 namespace kigumi {
 
 template <class K, class FaceData>
@@ -37,6 +39,14 @@ typename K::Point_3 face_centroid(const Triangle_mesh<K, FaceData>& m, Face_inde
   return CGAL::centroid(m.point(f[0]), m.point(f[1]), m.point(f[2]));
 }
 
+template <class K, class FaceData>
+typename K::Point_3 face_barycenter(const Triangle_soup<K, FaceData>& m, Face_index fi,
+                                    const std::array<int, 3>& weights) {
+  const auto& f = m.face(fi);
+  return CGAL::barycenter(m.point(f[0]), weights[0], m.point(f[1]), weights[1], m.point(f[2]),
+                          weights[2]);
+}
+
 template <class K, class FaceData>
 CGAL::Oriented_side oriented_side_of_face_supporting_plane(const Triangle_soup<K, FaceData>& m,
                                                            Face_index fi,
-- 
2.43.0


From 167df7753d4b26a55e76f38110d3c880fb0f5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:47 +0000
Subject: [PATCH 23/23] fix: reject numbers with two signs in text meshes

---
 include/kigumi/io/ascii.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 75774c5..7e0392b 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -22,7 +22,8 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   if (!(in >> s)) {
     return in;
   }
-  const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
+  // A number has at most one sign.
+  const auto* first = s.front() == '+' && !s.starts_with("+-") ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
   if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
-- 
2.43.0

