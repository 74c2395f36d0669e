From 110d1e2b4c61e70c745f4b7bf1193e30071fe449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:07 +0000
Subject: [PATCH 01/57] fix: construct appended Vector element before
 relocating the others

---
 include/um2/stdlib/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..df4b879 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,10 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The new element may be constructed from an element of this vector, so construct
+  // it before the existing elements are moved.
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +378,10 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // The new element may be constructed from an element of this vector, so construct
+  // it before the existing elements are moved.
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From 76c354df6774135943d939d1d6da10efd8dbdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 02/57] fix: allow empty strings in String and StringView
 operations

---
 include/um2/stdlib/string.hpp      | 2 +-
 include/um2/stdlib/string_view.hpp | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..8a3f089 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -853,7 +853,7 @@ HOSTDEV inline auto
 String::append(char const * s, Int n) -> String &
 {
   ASSERT(s != nullptr);
-  ASSERT(n > 0);
+  ASSERT(n >= 0);
   Int const cap = capacity(); // not including null terminator
   Int sz = size();
   Int const remaining = cap - sz;
diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..a67dc7c 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -228,7 +228,6 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
       _size(size)
 {
   ASSERT(s != nullptr);
-  ASSERT(size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
@@ -236,7 +235,6 @@ HOSTDEV constexpr StringView::StringView(char const * s) noexcept
       _size(strlen(s))
 {
   ASSERT(s != nullptr);
-  ASSERT(_size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * begin, char const * end) noexcept
@@ -245,7 +243,7 @@ HOSTDEV constexpr StringView::StringView(char const * begin, char const * end) n
 {
   ASSERT(begin != nullptr);
   ASSERT(end != nullptr);
-  ASSERT(_size > 0);
+  ASSERT(begin <= end);
 }
 
 //==============================================================================
-- 
2.43.0


From 02efb7ec6cb571c324cdeb28115e87b9a7d88ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 03/57] fix: size String conversion buffers for the largest
 float and double

---
 include/um2/stdlib/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index 8a3f089..72f6631 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -673,7 +673,8 @@ inline String::String(int64_t t) noexcept
 template <>
 inline String::String(float t) noexcept
 {
-  char buf[32];
+  // FLT_MAX has 39 digits before the decimal point
+  char buf[64];
   auto const d = static_cast<double>(t);
   int32_t const len = snprintf(nullptr, 0, "%f", d);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", d);
@@ -684,7 +685,8 @@ inline String::String(float t) noexcept
 template <>
 inline String::String(double t) noexcept
 {
-  char buf[32];
+  // DBL_MAX has 309 digits before the decimal point
+  char buf[320];
   int32_t const len = snprintf(nullptr, 0, "%f", t);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", t);
   ASSERT(written == len);
-- 
2.43.0


From 2e71b0b86c89f84740dbf1d87536e19c8ddc728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:43 +0000
Subject: [PATCH 04/57] fix: accept adjacent ranges in copy's overlap assertion

---
 include/um2/stdlib/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/stdlib/algorithm/copy.hpp b/include/um2/stdlib/algorithm/copy.hpp
index c10ccd9..d6b4012 100644
--- a/include/um2/stdlib/algorithm/copy.hpp
+++ b/include/um2/stdlib/algorithm/copy.hpp
@@ -54,7 +54,7 @@ copy(InputIt first, InputIt last, OutputIt d_first) noexcept -> OutputIt
     // we can use memcpy.
     auto const n = static_cast<size_t>(last - first);
     ASSERT(!is_pointer_in_range(first, last, d_first));
-    ASSERT(!is_pointer_in_range(first, last, d_first + n));
+    ASSERT(n == 0 || !is_pointer_in_range(first, last, d_first + n - 1));
     return static_cast<OutputIt>(memcpy(d_first, first, n * sizeof(InT))) + n;
   } else {
     return copyLoop(first, last, d_first);
-- 
2.43.0


From dcab2028cf8e197ebe1fa921b55ee26fcb3d3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:37 +0000
Subject: [PATCH 05/57] fix: skip blank lines and entries in lattice text
 instead of stopping there

---
 include/um2/common/string_to_lattice.hpp | 38 ++++++++++--------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/include/um2/common/string_to_lattice.hpp b/include/um2/common/string_to_lattice.hpp
index c4e23f3..4f2ca25 100644
--- a/include/um2/common/string_to_lattice.hpp
+++ b/include/um2/common/string_to_lattice.hpp
@@ -17,42 +17,34 @@ stringToLattice(String const & str, char const delimiter = ' ') -> Vector<Vector
 {
   Vector<Vector<T>> result;
 
-  // Remove leading spaces
   StringView str_view(str);
-  str_view.removeLeadingSpaces();
 
-  // For each new line
-  StringView line = str_view.getTokenAndShrink('\n');
-  line.removeLeadingSpaces();
-  while (!line.empty()) {
+  // For each new line. A token is only empty once the text is exhausted.
+  for (StringView line = str_view.getTokenAndShrink('\n'); !line.empty();
+       line = str_view.getTokenAndShrink('\n')) {
+    line.removeLeadingSpaces();
+    // Skip blank lines
+    if (line.empty()) {
+      continue;
+    }
     Vector<T> line_vec;
 
     // For each token in the line
-    StringView token = line.getTokenAndShrink(delimiter);
-    token.removeLeadingSpaces();
-    while (!token.empty()) {
+    for (StringView token = line.getTokenAndShrink(delimiter); !token.empty();
+         token = line.getTokenAndShrink(delimiter)) {
+      token.removeLeadingSpaces();
+      // Skip blank entries
+      if (token.empty()) {
+        continue;
+      }
       char * end = nullptr;
       line_vec.emplace_back(strto<T>(token.data(), &end));
       ASSERT(end != nullptr);
-      token = line.getTokenAndShrink(delimiter);
-      token.removeLeadingSpaces();
     }
     // Add the line to the result
     result.emplace_back(um2::move(line_vec));
-
-    // Get the next line
-    line = str_view.getTokenAndShrink('\n');
-    line.removeLeadingSpaces();
   }
 
-#if UM2_ENABLE_ASSERTS
-  str_view.removeLeadingSpaces();
-  bool const last_line_empty = str_view.empty();
-  bool const last_line_has_more_values =
-      str_view.find_first_not_of(delimiter) == StringView::npos;
-  ASSERT(last_line_empty || last_line_has_more_values);
-#endif
-
   return result;
 }
 
-- 
2.43.0


From 25bdc6ad5f81731f95fb0dc268daa06f5d08156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:27 +0000
Subject: [PATCH 06/57] fix: compute every column of a fixed-size matrix
 product

---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From ccba9a9a0be1fddf8de81112741df1e54b63173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:27 +0000
Subject: [PATCH 07/57] fix: overwrite the result in matmul without BLAS

---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..afb7697 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -477,6 +477,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
 
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
+      c(i, j) = static_cast<T>(0);
       for (Int k = 0; k < a.cols(); ++k) {
         c(i, j) += a(i, k) * b(k, j);
       }
-- 
2.43.0


From 520f1a4036e0434e7634bf8a36adb78e36e9f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:57 +0000
Subject: [PATCH 08/57] fix: move all mid nodes when reversing a quadratic
 quadrilateral

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
-- 
2.43.0


From 973e475cbff55a20b6a61e6944bccaa97f37ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:57 +0000
Subject: [PATCH 09/57] fix: move all mid nodes when reversing a quadratic
 quadrilateral mesh face

---
 include/um2/mesh/face_vertex_mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From cf2d04776257495196135f4b92fbf8f54aaae4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:32 +0000
Subject: [PATCH 10/57] fix: handle points just beyond the extremum of a curved
 edge in isLeft

---
 include/um2/geometry/quadratic_segment.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..93b1396 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -619,6 +619,11 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
 
   auto constexpr invalid_root = castIfNot<T>(1e15);
   auto const roots = solveQuadratic(ax, bx, -p_r[0]);
+  // No real roots. Due to rounding, a point in the bounding box may be just beyond the
+  // extremum of the curve in x, hence it is not under the curve.
+  if (roots[0] > invalid_root) {
+    return curves_right;
+  }
   // Only one root
   if (roots[1] > invalid_root) {
     // We know the point is in the bounding triangle, so we expect r to be in [0, 1]
-- 
2.43.0


From f31360dfa41c341fa766875c24159b427ab09d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:26 +0000
Subject: [PATCH 11/57] fix: report the two crossings of a curved segment from
 closest to farthest

---
 include/um2/geometry/quadratic_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 93b1396..a2f09bc 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -702,6 +702,10 @@ QuadraticSegment<D, T>::intersect(Ray2<T> const ray,
       }
     }
   }
+  // The roots are not ordered by distance along the ray
+  if (hits == 2 && buffer[1] < buffer[0]) {
+    um2::swap(buffer[0], buffer[1]);
+  }
   return hits;
 }
 
-- 
2.43.0


From 2f8e8848189fd1b757b37915d662adadd3586c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:43 +0000
Subject: [PATCH 12/57] fix: avoid cancellation in the length of nearly
 straight quadratic segments

---
 include/um2/geometry/quadratic_segment.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index a2f09bc..335fc6d 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -353,8 +353,18 @@ QuadraticSegment<D, T>::length() const noexcept -> T
   T const sabc = um2::sqrt(a + b + c);
   T const disc = quadraticDiscriminant(a, b, c);
   T const a2b = 2 * a + b;
-  T const num = disc * um2::log((2 * sa * sc + b) / (2 * sa * sabc + a2b)) +
-                sa * (2 * (a2b * sabc - b * sc));
+  T num = sa * (2 * (a2b * sabc - b * sc));
+  // disc <= 0 mathematically, and disc * log(disc) -> 0 as disc -> 0.
+  // For nearly straight segments, 2 * sa * sc + b may suffer from cancellation if b < 0,
+  // so use (2 * sa * sc + b) * (2 * sa * sc - b) = 4 * a * c - b^2 = -disc.
+  // Similarly for the denominator.
+  if (disc < 0) {
+    T const s0 = 2 * sa * sc;
+    T const s1 = 2 * sa * sabc;
+    T const log_num = b < 0 ? -disc / (s0 - b) : s0 + b;
+    T const log_den = a2b < 0 ? -disc / (s1 - a2b) : s1 + a2b;
+    num += disc * um2::log(log_num / log_den);
+  }
   T const den = 8 * sa * sa * sa;
   T const result = num / den;
   ASSERT(0 <= result);
-- 
2.43.0


From 3b1f7be6305628144b0b32fdb616efc8e4a45c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:22 +0000
Subject: [PATCH 13/57] fix: account for off-centre mid nodes in the closest
 point of straight quadratic segments

---
 include/um2/geometry/quadratic_segment.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 335fc6d..adacdb3 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -423,7 +423,17 @@ QuadraticSegment<D, T>::pointClosestTo(Point<D, T> const & p) const noexcept ->
 {
 
   if (isStraight(*this)) {
-    return LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
+    // Let t be the fraction of the line from v[0] to v[1] at which the closest point is,
+    // and m be the fraction at which v[2] is. If v[2] isn't the midpoint of the line, r
+    // and t are different, since t = (4m - 1)r + (2 - 4m)r².
+    LineSegment<D, T> const line(_v[0], _v[1]);
+    T const t = line.pointClosestTo(p);
+    T const m = line.pointClosestTo(_v[2]);
+    T const b = 4 * m - 1;
+    T const a = 2 - 4 * m;
+    T const disc = um2::max(b * b + 4 * a * t, castIfNot<T>(0));
+    T const den = b + um2::sqrt(disc);
+    return 0 < den ? um2::min(2 * t / den, castIfNot<T>(1)) : t;
   }
 
   // The interpolation function of the quadratic segment is
-- 
2.43.0


From bb25871f11a98bcfd8d935776a231e9b3525855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:05 +0000
Subject: [PATCH 14/57] fix: call the box accessors when constructing a regular
 grid from a box

---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..8f5d1d7 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.maxima() - box.minima())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From 9bd068d0a1760775d77aa6f278891d1b625b980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:25 +0000
Subject: [PATCH 15/57] fix: find grid cells for boxes and points far away from
 a regular grid

---
 include/um2/mesh/regular_grid.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 8f5d1d7..63b42c1 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -367,10 +367,13 @@ RegularGrid<D, T>::getCellIndicesIntersecting(
   Int const zero = 0;
   for (Int i = 0; i < D; ++i) {
     // Determine how many cells over the min and max are, then floor to get the
-    // interger indices.
-    result[i] = static_cast<Int>(um2::floor((box.minima(i) - _minima[i]) / _spacing[i]));
-    result[i + D] =
-        static_cast<Int>(um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]));
+    // interger indices. Limit the values to just outside of the grid, since the box may
+    // be far enough away that the index is not representable.
+    T const n = static_cast<T>(_num_cells[i]);
+    T const ilo = um2::floor((box.minima(i) - _minima[i]) / _spacing[i]);
+    T const ihi = um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]);
+    result[i] = static_cast<Int>(um2::clamp(ilo, static_cast<T>(-1), n));
+    result[i + D] = static_cast<Int>(um2::clamp(ihi, static_cast<T>(-1), n));
     // If the result is invalid, set to -1 to indicate no intersection
     // If the min index is greater than the max index (_num_cell[i] - 1)
     // If the max index is less than the min index (0)
@@ -394,7 +397,11 @@ RegularGrid<D, T>::getCellIndexContaining(Point<D, T> const & point) const noexc
   Vec<D, Int> result;
   Int const zero = 0;
   for (Int i = 0; i < D; ++i) {
-    result[i] = static_cast<Int>(um2::floor((point[i] - _minima[i]) / _spacing[i]));
+    // Limit the value to just outside of the grid, since the point may be far enough away
+    // that the index is not representable.
+    T const n = static_cast<T>(_num_cells[i]);
+    T const ix = um2::floor((point[i] - _minima[i]) / _spacing[i]);
+    result[i] = static_cast<Int>(um2::clamp(ix, static_cast<T>(-1), n));
     // If the result is invalid, set to -1
     if (_num_cells[i] - 1 < result[i] || result[i] < 0) {
       result[i] = -1;
-- 
2.43.0


From efe6087c6a6a347ed39401c9da8246836764486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:47 +0000
Subject: [PATCH 16/57] fix: keep all vertices when building a mesh from a
 non-planar soup

---
 src/mesh/face_vertex_mesh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..1979a36 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -71,16 +71,19 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
   // Ensure each of the vertices has approximately the same z
   _v.resize(num_vertices);
   Float const z = soup.getVertex(0)[2];
+  bool planar = true;
   for (Int i = 0; i < num_vertices; ++i) {
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
     if (um2::abs(p[2] - z) > epsDistance<Float>()) {
-      LOG_WARN(
-          "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
-      break;
+      planar = false;
     }
   }
+  if (!planar) {
+    LOG_WARN(
+        "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
+  }
 
   // -- Face/Vertex connectivity --
   _fv.resize(num_faces);
-- 
2.43.0


From 039d947c153b683bfe04c89d635ba01cbdcbb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:47 +0000
Subject: [PATCH 17/57] fix: use the two smallest coordinates when sorting
 ray-mesh intersections

---
 src/mesh/face_vertex_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 1979a36..a3d8fc1 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -562,7 +562,11 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
     Int const next_offset = offsets[iface + 1];
     Float r0 = coords[offset];
     Float r1 = coords[offset];
-    for (Int i = offset + 1; i < next_offset; ++i) {
+    if (offset + 1 < next_offset) {
+      r1 = um2::max(coords[offset], coords[offset + 1]);
+      r0 = um2::min(coords[offset], coords[offset + 1]);
+    }
+    for (Int i = offset + 2; i < next_offset; ++i) {
       Float const r = coords[i];
       if (r < r0) {
         r1 = r0;
-- 
2.43.0


From 25920f05a1ad3027bac697e8af9d0e36af8eb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:02 +0000
Subject: [PATCH 18/57] fix: report faces which share an edge with the same
 orientation as overlapping

---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index a3d8fc1..858af18 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -376,7 +376,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From e798630669edcbfd3624690271cdc1c16e715375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:40 +0000
Subject: [PATCH 19/57] fix: allow Morton sorting of meshes which are not at
 the origin

---
 src/mesh/face_vertex_mesh.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 858af18..c4613c4 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -126,16 +126,16 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   _has_vf = false;
 
   // Sort the centroid of each face using the morton encoding.
-  Int const num_faces = numFaces();
-  Vector<Point2F> centroids(num_faces);
-  for (Int i = 0; i < num_faces; ++i) {
-    centroids[i] = getFace(i).centroid();
-  }
-  // We need to scale the centroids to the unit cube before we can apply
+  // We need to translate and scale the centroids to the unit cube before we can apply
   // the morton encoding. Therefore we need to find the bounding box of
   // all faces.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  Int const num_faces = numFaces();
+  Vector<Point2F> centroids(num_faces);
+  for (Int i = 0; i < num_faces; ++i) {
+    centroids[i] = getFace(i).centroid() - aabb.minima();
+  }
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
@@ -153,10 +153,14 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   // Invalidate vertex-face connectivity
   _has_vf = false;
 
-  // We need to scale the vertices to the unit cube before we can apply
+  // We need to translate and scale the vertices to the unit cube before we can apply
   // the morton encoding.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  Vector<Point2F> points = _v;
+  for (auto & p : points) {
+    p -= aabb.minima();
+  }
 
   // Get the permutation vector which sorts the vertices according to the morton
   // encoding. We also need the inverse permutation to ensure that the face-vertex
@@ -164,7 +168,7 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  mortonSortPermutation(points.cbegin(), points.cend(), perm.begin(), inv_scale);
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From 4eb936fa501bd4f48816d06b4d678d4c16794333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:56 +0000
Subject: [PATCH 20/57] fix: clear the data output when an elset has no data

---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From 09ca08133e2ad0a811c57be589bd97a01cd55cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:56 +0000
Subject: [PATCH 21/57] fix: allow sorting the elsets of a soup without elsets

---
 src/mesh/polytope_soup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..35eb710 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -199,9 +199,13 @@ PolytopeSoup::reserveMoreVertices(Int const num_verts)
 void
 PolytopeSoup::sortElsets()
 {
+  Int const num_elsets = _elset_names.size();
+  if (num_elsets == 0) {
+    return;
+  }
+
   // Create a vector that stores the name and index of each elset.
   using NameIndexPair = um2::Pair<String, Int>;
-  Int const num_elsets = _elset_names.size();
   Vector<NameIndexPair> elset_name_index_pairs(num_elsets);
   for (Int i = 0; i < num_elsets; ++i) {
     elset_name_index_pairs[i] = NameIndexPair(_elset_names[i], i);
-- 
2.43.0


From 6a9829aeb00883c5d1527faa502cc6dad4681178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:56 +0000
Subject: [PATCH 22/57] fix: allow appending a soup without elements

---
 src/mesh/polytope_soup.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 35eb710..ed183d5 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -272,10 +272,12 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
             _element_types.begin() + this_num_elems);
 
   // Element offsets
-  Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  if (other_num_elems > 0) {
+    Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From 0e26d424a13b0a939c8029204568aee6abd47fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:56 +0000
Subject: [PATCH 23/57] fix: allow appending a soup to itself

---
 src/mesh/polytope_soup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index ed183d5..5420f2e 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -257,6 +257,12 @@ auto
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 {
+  // If appending to itself, append a copy, since the vectors are resized below.
+  if (this == addressof(other)) {
+    PolytopeSoup const copy(other);
+    return *this += copy;
+  }
+
   // Vertices
   auto const this_num_verts = numVertices();
   auto const other_num_verts = other.numVertices();
-- 
2.43.0


From 4980bfbff7177d10b77bd01256f9248926495a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:08 +0000
Subject: [PATCH 24/57] fix: read XDMF meshes which only contain quadratic
 edges

---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 5420f2e..c6fd876 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1652,6 +1652,8 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       elem_type = VTKElemType::Triangle;
     } else if (topology_type == "Quadrilateral") {
       elem_type = VTKElemType::Quad;
+    } else if (topology_type == "Edge_3") {
+      elem_type = VTKElemType::QuadraticEdge;
     } else if (topology_type == "Triangle_6") {
       elem_type = VTKElemType::QuadraticTriangle;
     } else if (topology_type == "Quadrilateral_8") {
-- 
2.43.0


From 4c0b73f06c559b4697d3f15b3db37c9ef6a713f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:32 +0000
Subject: [PATCH 25/57] fix: skip comments within the sections of an Abaqus
 file

---
 src/mesh/polytope_soup.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index c6fd876..4ee42e7 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -627,13 +627,29 @@ PolytopeSoup::getSubset(String const & elset_name, PolytopeSoup & subset) const
 namespace
 {
 
+// Get the next data line of the current section, skipping comments ("**").
+// Returns false if the section has ended.
+auto
+abaqusGetDataLine(std::ifstream & file, char * const line,
+                  uint64_t const max_line_length) -> bool
+{
+  while (file.getline(line, static_cast<int64_t>(max_line_length))) {
+    if (line[0] != '*') {
+      return true;
+    }
+    if (line[1] != '*') {
+      return false;
+    }
+  }
+  return false;
+}
+
 auto
 abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
                  uint64_t const max_line_length) -> StringView
 {
   // line starts with "*NODE"
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // Format: node_id, x, y, z
     // Skip ID
@@ -709,8 +725,7 @@ abaqusParseElements(PolytopeSoup & soup, std::ifstream & file, char * const line
   }
   Int const verts_per_elem = verticesPerElem(this_type);
   Vector<Int> conn(verticesPerElem(this_type));
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // For each element, read the element ID and the node IDs
     // Format: id, n1, n2, n3, n4, n5 ...
@@ -745,8 +760,7 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
   ASSERT(info_line_view.size() > 13);
   String const elset_name(info_line_view.substr(13, info_line_view.size() - 13));
   Vector<Int> elset_ids;
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-- 
2.43.0


From 6b48b4e1f72a9db36e03274b9b9fec495075d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:46 +0000
Subject: [PATCH 26/57] fix: keep the last id of an Abaqus elset line without a
 trailing comma

---
 src/mesh/polytope_soup.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 4ee42e7..8ac17a7 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -764,26 +764,24 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-    // Note, line ends in ", " or ",", hence a meaningful token is always followed
-    // by a comma and is at least 2 characters long: ex "1," or "1, "
-    uint64_t comma = line_view.find_first_of(',');
-    ASSERT(comma > 0);
-    while (comma != StringView::npos) {
-      // token = "id"
-      StringView const token = line_view.substr(0, comma);
+    // Note, the last ID of a line may or may not be followed by a comma.
+    line_view.removeLeadingSpaces();
+    while (!line_view.empty() && line_view[0] != '\r') {
+      // line_view starts with "id"
       char * end = nullptr;
-      Int const id = strto<Int>(token.data(), &end);
+      Int const id = strto<Int>(line_view.data(), &end);
       ASSERT(end != nullptr);
       ASSERT(id > 0);
       elset_ids.emplace_back(id - 1); // ABAQUS is 1-indexed
 
-      // Done if there are not enough characters left for another id
-      if (line_view.size() <= comma + 2) {
+      // Done if this is the last ID of the line
+      uint64_t const comma = line_view.find_first_of(',');
+      if (comma == StringView::npos) {
         break;
       }
-      // Otherwise, remove the token and the comma, and find the next comma
+      // Otherwise, remove the ID and the comma
       line_view.remove_prefix(comma + 1);
-      comma = line_view.find_first_of(',');
+      line_view.removeLeadingSpaces();
     }
   }
   ASSERT(um2::is_sorted(elset_ids.cbegin(), elset_ids.cend()));
-- 
2.43.0


From 37f45d3a57a5639203ecbaeb050722e87bb6fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:46 +0000
Subject: [PATCH 27/57] fix: do not add a mesh when rejecting a rectangular pin
 mesh

---
 src/mpact/model.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..dd82545 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -718,9 +718,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
-
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
     return -1;
@@ -729,6 +726,8 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     logger::error("Number of faces must be positive");
     return -1;
   }
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
 
   // Make the vertices
   auto & vertices = mesh.vertices();
-- 
2.43.0


From 22cccbe0673456b19d9bd21b1a7ac766033e20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:47 +0000
Subject: [PATCH 28/57] fix: reject cylindrical pin cells with an invalid mesh
 or materials as a whole

---
 src/mpact/model.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index dd82545..08194b0 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -658,10 +658,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -685,6 +681,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id == -1) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
-- 
2.43.0


From d31473996b9d645ad80fdbeec2037fc6105887c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:08 +0000
Subject: [PATCH 29/57] fix: reject cylindrical pin meshes with invalid radii
 or ring counts

---
 src/mpact/model.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 08194b0..0df8910 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -38,6 +38,7 @@
 #endif
 
 #include <algorithm>
+#include <functional>
 #include <cstring>
 #include <fstream>
 #include <iomanip>
@@ -167,6 +168,23 @@ Model::addCylindricalPinMesh(Float const pitch, Vector<Float> const & radii,
     return -1;
   }
 
+  if (radii.empty()) {
+    logger::error("There must be at least one radius");
+    return -1;
+  }
+
+  if (radii[0] <= 0 ||
+      std::adjacent_find(radii.begin(), radii.end(), std::greater_equal<>{}) !=
+          radii.end()) {
+    logger::error("The radii must be positive and increasing");
+    return -1;
+  }
+
+  if (std::any_of(num_rings.begin(), num_rings.end(), [](Int n) { return n <= 0; })) {
+    logger::error("The number of rings must be positive");
+    return -1;
+  }
+
   if (std::any_of(radii.begin(), radii.end(),
                   [pitch](Float r) { return r > pitch / 2; })) {
     logger::error("The radii must be less than half the pitch");
-- 
2.43.0


From 0f0806cb20b3f66e1eb24d74d81d16e0b3cdf2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:08 +0000
Subject: [PATCH 30/57] fix: reject empty, ragged and inconsistently sized maps
 of model components

---
 src/mpact/model.cpp | 59 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 0df8910..3263e46 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -87,6 +87,42 @@ flattenLattice(Vector<Vector<T>> const & ids, Vector<U> & flat_ids)
   }
 }
 
+// Ensure that the lattice has at least one element and that each row has the same
+// number of columns
+auto
+isRectangular(Vector<Vector<Int>> const & ids) -> bool
+{
+  if (ids.empty() || ids[0].empty()) {
+    logger::error("The lattice must have at least one row and column");
+    return false;
+  }
+  for (auto const & row : ids) {
+    if (row.size() != ids[0].size()) {
+      logger::error("Each row must have the same number of columns");
+      return false;
+    }
+  }
+  return true;
+}
+
+// Ensure that the elements of each row have the same height and that the elements of
+// each column have the same width
+auto
+isRectilinear(Vector<Vec2F> const & dxdy, Vector<Vector<Int>> const & ids) -> bool
+{
+  auto constexpr eps = epsDistance<Float>();
+  for (auto const & row : ids) {
+    for (Int j = 0; j < row.size(); ++j) {
+      if (um2::abs(dxdy[row[j]][0] - dxdy[ids[0][j]][0]) > eps ||
+          um2::abs(dxdy[row[j]][1] - dxdy[row[0]][1]) > eps) {
+        logger::error("The rows and columns of the lattice must have uniform sizes");
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 } // namespace
 
 //=============================================================================
@@ -919,6 +955,9 @@ Model::addRTM(Vector<Vector<Int>> const & cc_ids) -> Int
 {
   Int const rtm_id = _rtms.size();
   LOG_DEBUG("Adding ray tracing module ", rtm_id);
+  if (!isRectangular(cc_ids)) {
+    return -1;
+  }
   Vector<Int> unique_cc_ids;
   Vector<Vec2F> xy_extents;
   // Ensure that all coarse cells exist
@@ -949,6 +988,9 @@ Model::addRTM(Vector<Vector<Int>> const & cc_ids) -> Int
       cc_ids_renumbered[i][j] = static_cast<Int>(it - unique_cc_ids.begin());
     }
   }
+  if (!isRectilinear(xy_extents, cc_ids_renumbered)) {
+    return -1;
+  }
   // Create the rectilinear grid
   RectilinearGrid2F const grid(xy_extents, cc_ids_renumbered);
   // Ensure the grid has the same extents as all other RTMs
@@ -975,6 +1017,9 @@ Model::addLattice(Vector<Vector<Int>> const & rtm_ids) -> Int
 {
   Int const lat_id = _lattices.size();
   LOG_DEBUG("Adding lattice ", lat_id);
+  if (!isRectangular(rtm_ids)) {
+    return -1;
+  }
   // Ensure that all RTMs exist
   Int const num_rtm = _rtms.size();
   for (auto const & rtm_ids_row : rtm_ids) {
@@ -986,17 +1031,10 @@ Model::addLattice(Vector<Vector<Int>> const & rtm_ids) -> Int
     }
   }
   // Create the lattice
-  // Ensure each row has the same number of columns
   Point2F const minima(0, 0);
   Vec2F const spacing = _rtms[0].grid().extents();
   Int const num_rows = rtm_ids.size();
   Int const num_cols = rtm_ids[0].size();
-  for (Int i = 1; i < num_rows; ++i) {
-    if (rtm_ids[i].size() != num_cols) {
-      logger::error("Each row must have the same number of columns");
-      return -1;
-    }
-  }
   Vec2I const num_cells(num_cols, num_rows);
   RegularGrid2F const grid(minima, spacing, num_cells);
   // Flatten the RTM IDs (rows are reversed)
@@ -1088,6 +1126,10 @@ Model::addCore(Vector<Vector<Int>> const & asy_ids) -> Int
     return -1;
   }
 
+  if (!isRectangular(asy_ids)) {
+    return -1;
+  }
+
   // Ensure that all assemblies exist
   Int const num_asy = _assemblies.size();
   for (auto const & asy_ids_row : asy_ids) {
@@ -1103,6 +1145,9 @@ Model::addCore(Vector<Vector<Int>> const & asy_ids) -> Int
     auto const lat_id = _assemblies[i].getChild(0);
     xy_extents[i] = _lattices[lat_id].grid().extents();
   }
+  if (!isRectilinear(xy_extents, asy_ids)) {
+    return -1;
+  }
   // Create the rectilinear grid
   RectilinearGrid2F const grid(xy_extents, asy_ids);
   // Flatten the assembly IDs (rows are reversed)
-- 
2.43.0


From 8768ba26cb482e31dbb118b0c40b907441e175d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:27 +0000
Subject: [PATCH 31/57] fix: reject assemblies without lattices or with
 repeated z-planes

---
 src/mpact/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 3263e46..45d941b 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -19,7 +19,6 @@
 #include <um2/physics/material.hpp>
 #include <um2/stdlib/algorithm/copy.hpp>
 #include <um2/stdlib/algorithm/fill.hpp>
-#include <um2/stdlib/algorithm/is_sorted.hpp>
 #include <um2/stdlib/algorithm/min.hpp>
 #include <um2/stdlib/assert.hpp>
 #include <um2/stdlib/math/abs.hpp>
@@ -38,9 +37,9 @@
 #endif
 
 #include <algorithm>
-#include <functional>
 #include <cstring>
 #include <fstream>
+#include <functional>
 #include <iomanip>
 #include <numeric>
 #include <string>
@@ -1054,6 +1053,10 @@ Model::addAssembly(Vector<Int> const & lat_ids, Vector<Float> const & z) -> Int
 {
   Int const asy_id = _assemblies.size();
   LOG_DEBUG("Adding assembly ", asy_id);
+  if (lat_ids.empty()) {
+    logger::error("An assembly must have at least one lattice");
+    return -1;
+  }
   // Ensure that all lattices exist
   Int const num_lat = _lattices.size();
   for (auto const & id : lat_ids) {
@@ -1068,7 +1071,7 @@ Model::addAssembly(Vector<Int> const & lat_ids, Vector<Float> const & z) -> Int
     return -1;
   }
   // Ensure all z-planes are in ascending order
-  if (!um2::is_sorted(z.begin(), z.end())) {
+  if (std::adjacent_find(z.begin(), z.end(), std::greater_equal<>{}) != z.end()) {
     logger::error("The z-planes must be in ascending order");
     return -1;
   }
-- 
2.43.0


From 8d0999a9fc91180272096b4bbde8f13c79d0b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:16 +0000
Subject: [PATCH 32/57] fix: write material volumes of models with an unused
 material

The volume sum requires at least one term, so writing a model that has
a material which no cell of the core uses failed an assertion (or read
past an empty range without assertions).
---
 src/mpact/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 45d941b..45bc2f1 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2212,6 +2212,10 @@ writeMaterialVolumes(String const & filename, Model const & model)
   // Reduce the volumes to the total volume of each material
   Vector<Float> total_volumes(nmats, 0);
   for (Int imat = 0; imat < nmats; ++imat) {
+    // A material may not be used by any cell in the core
+    if (volumes[imat].empty()) {
+      continue;
+    }
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
     std::sort(volumes[imat].begin(), volumes[imat].end());
-- 
2.43.0


From 2055991f616da1db36199e74fd703dea0d1c86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:16 +0000
Subject: [PATCH 33/57] fix: remember the lattice id when reading a model

The list of lattices already read stored the assembly id, so a lattice
could be skipped or read twice depending on the numbering.
---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 45bc2f1..2b6811e 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2668,7 +2668,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From 7330d95460a5bad5d88eb4a49828fc387097a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:03 +0000
Subject: [PATCH 34/57] fix: write lattice heights of a model with full
 precision

Heights were written with six decimals, so a model with other heights
came back with lattices at different positions.
---
 src/mpact/model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 2b6811e..5053e9e 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -37,6 +37,7 @@
 #endif
 
 #include <algorithm>
+#include <cstdio>
 #include <cstring>
 #include <fstream>
 #include <functional>
@@ -1906,9 +1907,12 @@ writeXDMFFile(String const & filepath, Model const & model,
         // Add the lattice "Z" information
         pugi::xml_node xlat_info = xlat_grid.append_child("Information");
         xlat_info.append_attribute("Name") = "Z";
-        String const lat_z_str =
-            String(low_z) + ", " + String(lat_z) + ", " + String(high_z);
-        xlat_info.append_child(pugi::node_pcdata).set_value(lat_z_str.data());
+        // Use enough digits to recover the same values when the file is read
+        char lat_z_str[96];
+        snprintf(lat_z_str, sizeof(lat_z_str), "%.17g, %.17g, %.17g",
+                 static_cast<double>(low_z), static_cast<double>(lat_z),
+                 static_cast<double>(high_z));
+        xlat_info.append_child(pugi::node_pcdata).set_value(lat_z_str);
 
         // Get the lattice
         auto const & lattice = lattices[lat_id];
-- 
2.43.0


From 3db39b017d885e06be30d0f3139fffb7cb1d4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:09 +0000
Subject: [PATCH 35/57] fix: end the line of a material without nuclides in the
 input file

The next material, or the GEOM card after the last one, was written on
the same line as a material without nuclides.
---
 src/mpact/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 5053e9e..995c4f2 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2079,6 +2079,8 @@ writeInputFile(String const & filename, Model const & model)
         }
         file << zaids[i] << " " << densities[i] << '\n';
       }
+    } else {
+      file << '\n';
     }
   } // for (imat)
 
-- 
2.43.0


From 5da6c418664e142cc52dd02a41fb39b5033ebaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:49 +0000
Subject: [PATCH 36/57] fix: do not check cross section values after a size
 mismatch

Validating a cross section whose arrays have the wrong size reported the
mismatch and then read past the end of the arrays.
---
 src/physics/cross_section.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/physics/cross_section.cpp b/src/physics/cross_section.cpp
index c39436b..ea2c172 100644
--- a/src/physics/cross_section.cpp
+++ b/src/physics/cross_section.cpp
@@ -46,6 +46,14 @@ XSec::validate() const noexcept
     LOG_ERROR("Cross section has an incorrect scattering matrix size");
   }
 
+  // The values can only be checked if there is one for each group
+  if (_a.size() != _num_groups || _f.size() != _num_groups ||
+      _nuf.size() != _num_groups || _tr.size() != _num_groups ||
+      _s.size() != _num_groups || _ss.rows() != _num_groups ||
+      _ss.cols() != _num_groups) {
+    return;
+  }
+
   if (isMacro()) {
     for (Int i = 0; i < _num_groups; ++i) {
       auto const a = _a[i];
-- 
2.43.0


From 50e2e23389be14d3f5625aa29520ab0d13df9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:59 +0000
Subject: [PATCH 37/57] fix: give a default constructed matrix zero rows and
 columns

The sizes were left uninitialized, so an empty matrix reported an
arbitrary number of rows and columns.
---
 include/um2/math/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index afb7697..d4792f8 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -18,8 +18,8 @@ namespace um2
 template <class T>
 class Matrix
 {
-  Int _rows;
-  Int _cols;
+  Int _rows = 0;
+  Int _cols = 0;
 
   Vector<T> _data;
 
-- 
2.43.0


From 5ecb7f1e3bf537d9215708695d86356af14ad15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 38/57] fix: read group data whose lines end in spaces

A line of group bounds or fission spectrum values followed by two or more
spaces was read as one value too many, which shifted the values of the
next line.
---
 src/physics/cross_section_library.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..b5ea31b 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -118,17 +118,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(token.data(), &end);
@@ -158,17 +151,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(token.data(), &end);
-- 
2.43.0


From a31ba595cfd2d5beed72f4478cff33e466f19d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 39/57] fix: read scattering rows of libraries with many groups

A row of scattering data longer than 1023 characters was cut off, after
which nothing else could be read from the library.
---
 src/physics/cross_section_library.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index b5ea31b..e8d7668 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -37,7 +37,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
 
-  uint64_t const max_line_length = 1024;
+  uint64_t const max_line_length = 32768;
   char line[max_line_length];
 
   // %VER
-- 
2.43.0


From 5bd3f2eaa100381b0ac296e277996bd9a66c1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 40/57] fix: mark interpolated cross sections as fissile

Interpolating between a table without fission and one with fission gave
positive fission values that were not marked as fissile.
---
 src/physics/nuclide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index f6fcc11..aa70b03 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -104,7 +104,7 @@ Nuclide::interpXS(Float const temperature) const noexcept -> XSec
   XSec xs(xs0.numGroups());
   ASSERT(xs1.numGroups() == ng);
   xs.isMacro() = xs0.isMacro();
-  xs.isFissile() = xs0.isFissile();
+  xs.isFissile() = xs0.isFissile() || xs1.isFissile();
 
   // Interpolate the cross sections
   // TODO(kcvaughn): This should be handled with arithmetic operators on the XSec
-- 
2.43.0


From df63ee82e137752582c4b1b18c64f4730bc93a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 41/57] fix: do not add nuclides that were reported as invalid

Nuclides with an invalid identifier or density, duplicates, and mixtures
with a nuclide of unknown mass were reported but added all the same.
---
 src/physics/material.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index bf8c24a..8176b69 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -368,14 +368,17 @@ Material::addNuclide(Int zaid, Float num_density) noexcept
 {
   if (zaid <= 0) {
     LOG_ERROR("Invalid ZAID");
+    return;
   }
   if (num_density <= 0) {
     LOG_ERROR("Invalid number density");
+    return;
   }
   // Check if the nuclide is already in the list
   for (auto const & z : _zaid) {
     if (z == zaid) {
       LOG_ERROR("Nuclide already exists in material");
+      return;
     }
   }
   _zaid.emplace_back(zaid);
@@ -447,6 +450,7 @@ Material::addNuclidesAtomPercent(Vector<String> const & symbols,
     }
     if (!found) {
       LOG_ERROR("Atomic mass not found for ZAID: ", zaid);
+      return;
     }
   }
   for (Int i = 0; i < symbols.size(); ++i) {
-- 
2.43.0


From 54587f0afc7af455889dd8f1e9eadc45b695f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 42/57] fix: accept zero fractions in material compositions

An atom percent of zero, uranium without U-235 and pure gadolinia are
permitted by the preconditions but were rejected as invalid densities.
---
 src/physics/material.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index 8176b69..6d2cd39 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -456,7 +456,9 @@ Material::addNuclidesAtomPercent(Vector<String> const & symbols,
   for (Int i = 0; i < symbols.size(); ++i) {
     auto const zaid = toZAID(symbols[i]);
     auto const percent = percents[i];
-    addNuclide(zaid, percent * _density * n_avo_barn / m);
+    if (percent > 0) {
+      addNuclide(zaid, percent * _density * n_avo_barn / m);
+    }
   }
 }
 
@@ -573,10 +575,14 @@ Material::setUO2(Float wt_u235, Float wt_gad) noexcept
   Float const n_u235 = at_u235 * n_u;
   Float const n_u236 = at_u236 * n_u;
   Float const n_u238 = at_u238 * n_u;
-  addNuclide(92234, n_u234);
-  addNuclide(92235, n_u235);
-  addNuclide(92236, n_u236);
-  addNuclide(92238, n_u238);
+  if (n_u235 > 0) {
+    addNuclide(92234, n_u234);
+    addNuclide(92235, n_u235);
+    addNuclide(92236, n_u236);
+  }
+  if (n_u238 > 0) {
+    addNuclide(92238, n_u238);
+  }
 
   // Compute the average mass of Gd2O3
   //---------------------------------------------------------------------------
-- 
2.43.0


From c4ec7153ef1a6586ec0ef42fa0c05e73e303f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:24 +0000
Subject: [PATCH 43/57] fix: return no regions for a mesh without power

The missing power was reported, but then a vector of zero regions was
requested, which is not allowed.
---
 src/mpact/powers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpact/powers.cpp b/src/mpact/powers.cpp
index 3f22bed..239aeea 100644
--- a/src/mpact/powers.cpp
+++ b/src/mpact/powers.cpp
@@ -207,6 +207,10 @@ getPowers(PolytopeSoup const & soup) -> Vector<Pair<Float, Point2F>>
   } // while !done_merging
   LOG_INFO("Merging of FSR subsets complete after ", merge_count, " iterations");
 
+  if (subset_ids.empty()) {
+    return {};
+  }
+
   // Subset power and centroid vector
   Vector<Pair<Float, Point2F>> subset_pc(subset_ids.size());
   Vector<Float> areas;
-- 
2.43.0


From 15fd77924461e762f7899183f6193063756937b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:12 +0000
Subject: [PATCH 44/57] fix: truncate log messages that do not fit in the
 buffer

A message longer than the buffer, such as one with a long file path, was
written past the end of the buffer, or ended the program when assertions
are enabled.
---
 src/common/logger.cpp | 85 +++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 55 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..ed13d48 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -3,6 +3,7 @@
 #include <um2/common/settings.hpp>
 #include <um2/config.hpp>
 #include <um2/stdlib/algorithm/copy.hpp>
+#include <um2/stdlib/algorithm/min.hpp>
 #include <um2/stdlib/assert.hpp>
 #include <um2/stdlib/memory/addressof.hpp>
 #include <um2/stdlib/string.hpp>
@@ -64,13 +65,31 @@ reset() noexcept
 namespace
 {
 
+// Leave room for the postamble: the color reset sequence and the null terminator.
+// Messages that do not fit are truncated.
+Int constexpr postamble_size = 5;
+char const * const text_end = buffer + (buffer_size - postamble_size);
+
 auto
 appendStringViewToBuffer(char * buffer_pos, StringView const sv) noexcept -> char *
 {
-  auto * const new_pos = buffer_pos + sv.size();
-  ASSERT(new_pos < buffer_end);
-  um2::copy(sv.begin(), sv.end(), buffer_pos);
-  return new_pos;
+  auto const room = static_cast<uint64_t>(text_end - buffer_pos);
+  uint64_t const n = um2::min(room, static_cast<uint64_t>(sv.size()));
+  um2::copy(sv.begin(), sv.begin() + n, buffer_pos);
+  return buffer_pos + n;
+}
+
+// Use snprintf to convert the value to a string and store it in the buffer
+template <class T>
+auto
+appendFormattedToBuffer(char * buffer_pos, char const * const format,
+                        T const value) noexcept -> char *
+{
+  auto const room = static_cast<int32_t>(text_end - buffer_pos);
+  int32_t const len =
+      snprintf(buffer_pos, static_cast<uint64_t>(room) + 1, format, value);
+  ASSERT(len > 0);
+  return buffer_pos + um2::min(len, room);
 }
 
 } // namespace
@@ -90,23 +109,14 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const & value) noexcept -> char *
 {
-  *buffer_pos = value;
-  ++buffer_pos;
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendStringViewToBuffer(buffer_pos, StringView(&value, 1));
 }
 
-// Use snprintf to convert the value to a string and store it in the buffer
 template <>
 auto
 toBuffer(char * buffer_pos, int32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%d", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%d", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormattedToBuffer(buffer_pos, "%d", value);
 }
 
 template <>
@@ -122,48 +132,28 @@ template <>
 auto
 toBuffer(char * buffer_pos, uint32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%u", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%u", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormattedToBuffer(buffer_pos, "%u", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, int64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%ld", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%ld", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormattedToBuffer(buffer_pos, "%ld", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, uint64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%lu", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%lu", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormattedToBuffer(buffer_pos, "%lu", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, double const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%f", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%f", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormattedToBuffer(buffer_pos, "%f", value);
 }
 
 template <>
@@ -179,22 +169,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
-  if (value) {
-    buffer_pos[0] = 't';
-    buffer_pos[1] = 'r';
-    buffer_pos[2] = 'u';
-    buffer_pos[3] = 'e';
-    buffer_pos += 4;
-  } else {
-    buffer_pos[0] = 'f';
-    buffer_pos[1] = 'a';
-    buffer_pos[2] = 'l';
-    buffer_pos[3] = 's';
-    buffer_pos[4] = 'e';
-    buffer_pos += 5;
-  }
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendStringViewToBuffer(buffer_pos, StringView(value ? "true" : "false"));
 }
 
 template <>
-- 
2.43.0


From 1023c8009c4785af84be22bc116a46ecb3a05b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:00 +0000
Subject: [PATCH 45/57] fix: do not read past an empty group list when
 colouring materials

Colouring looked at the last physical group of the model without checking
that there is one. An intersection of shapes that do not overlap leaves no
groups, so it read in front of an empty vector.
---
 src/gmsh/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..728ffaa 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -130,6 +130,10 @@ colorMaterialPhysicalGroupEntities(std::vector<Material> const & materials)
   std::vector<int> ptags(num_materials, -1);
   gmsh::vectorpair dimtags;
   gmsh::model::getPhysicalGroups(dimtags);
+  // If there are no physical groups, there is nothing to color.
+  if (dimtags.empty()) {
+    return;
+  }
   // We only care about the highest dimension physical groups.
   int const dim_max = dimtags.back().first;
   for (auto const & dimtag : dimtags) {
-- 
2.43.0


From def96852c43172c3341706935d53b34ed681b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:25 +0000
Subject: [PATCH 46/57] fix: accept groups of points when opening a CAD file

The side file lists the physical groups of every dimension, but reading it
asserted that the dimension is positive. A model with a group of points
could be written and not opened again.
---
 src/gmsh/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 35e31ef..fb39170 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -212,10 +212,10 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
     size_t const name_start = line.find('"') + 1;
     size_t const name_end = line.find('"', name_start);
     std::string const name = line.substr(name_start, name_end - name_start);
-    // dim is 1, 2, or 3 and is 2 characters after the end of the name.
+    // dim is 0, 1, 2, or 3 and is 2 characters after the end of the name.
     size_t const dim_start = name_end + 2;
     int const dim = std::stoi(line.substr(dim_start, 1));
-    ASSERT(dim > 0);
+    ASSERT(dim >= 0);
     ASSERT(dim < 4);
 
     size_t const num_tags_start = dim_start + 2;
-- 
2.43.0


From a1e1a7d7816efb9cc421fb1da7f7240b30dca351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:15 +0000
Subject: [PATCH 47/57] fix: keep the group list of the CAD model intact when
 extending a group

Extending a physical group removed that one group and added it again. Gmsh
keeps a dangling entry for it, and the next two removals of all groups (as
done by every group preserving operation, or when the session is cleared)
free the same memory twice. Overlaying a coarse grid on a solid model that
already contains the fill material ended the program this way. Remove all
groups and add them again instead.
---
 src/gmsh/model.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 728ffaa..709a927 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -53,16 +53,27 @@ addToPhysicalGroup(int const dim, std::vector<int> const & tags, int const tag,
       std::vector<int> new_tags(tags.size() + existing_tags.size());
       std::merge(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
                  new_tags.begin());
-      gmsh::model::removePhysicalGroups({
-          {dim, existing_group_tag}
-      });
-#  if UM2_ENABLE_ASSERTS
-      int const new_tag =
-          gmsh::model::addPhysicalGroup(dim, new_tags, existing_group_tag, name);
-      ASSERT(new_tag == existing_group_tag);
-#  else
-      gmsh::model::addPhysicalGroup(dim, new_tags, existing_group_tag, name);
-#  endif
+      // Gmsh frees the groups twice if all groups are removed after a single group
+      // was removed. Therefore, remove all of the groups and add them again.
+      gmsh::vectorpair all_groups;
+      gmsh::model::getPhysicalGroups(all_groups);
+      std::vector<std::string> group_names(all_groups.size());
+      std::vector<std::vector<int>> group_tags(all_groups.size());
+      for (size_t i = 0; i < all_groups.size(); ++i) {
+        int const group_dim = all_groups[i].first;
+        int const group_tag = all_groups[i].second;
+        gmsh::model::getPhysicalName(group_dim, group_tag, group_names[i]);
+        if (group_dim == dim && group_tag == existing_group_tag) {
+          group_tags[i] = new_tags;
+        } else {
+          gmsh::model::getEntitiesForPhysicalGroup(group_dim, group_tag, group_tags[i]);
+        }
+      }
+      gmsh::model::removePhysicalGroups();
+      for (size_t i = 0; i < all_groups.size(); ++i) {
+        gmsh::model::addPhysicalGroup(all_groups[i].first, group_tags[i],
+                                      all_groups[i].second, group_names[i]);
+      }
       return;
     }
   }
-- 
2.43.0


From 306b7725fe2d852010f28c01f3d756168df9b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:39 +0000
Subject: [PATCH 48/57] fix: forget the options of the previous mesh when
 generating a CAD mesh

Gmsh options persist. A triangle mesh generated after a quadrilateral
mesh came out as quadrilaterals, because the recombination and
subdivision options were still set.
---
 src/gmsh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/mesh.cpp b/src/gmsh/mesh.cpp
index 8bbf62c..2934cae 100644
--- a/src/gmsh/mesh.cpp
+++ b/src/gmsh/mesh.cpp
@@ -43,6 +43,9 @@ generateMesh(MeshType const mesh_type, int const smooth_iters)
 {
   gmsh::option::setNumber("Mesh.SecondOrderIncomplete", 1);
   gmsh::option::setNumber("Mesh.Smoothing", smooth_iters);
+  // Options outlive the mesh, so undo what a previous mesh of another type has set.
+  gmsh::option::setNumber("Mesh.RecombineAll", 0);
+  gmsh::option::setNumber("Mesh.SubdivisionAlgorithm", 0);
   // Int constexpr mesh_from_curvature = 8;
   switch (mesh_type) {
   case MeshType::Tri:
-- 
2.43.0


From 11f2a0c81b206c8dde59342e8db15498e4684043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:39 +0000
Subject: [PATCH 49/57] fix: keep both contributions in CMFD matrices of one
 fine cell

With a single fine cell per coarse cell the periodic term shares its
entry with the diagonal. It replaced the diagonal instead of being
added to it.
---
 src/physics/cmfd.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/cmfd.cpp b/src/physics/cmfd.cpp
index 3de101a..6353e6c 100644
--- a/src/physics/cmfd.cpp
+++ b/src/physics/cmfd.cpp
@@ -50,8 +50,9 @@ set_An(Matrix<ComplexF> & An, CMFDCellParams const & params, Float const mu_n,
   // Traverse in column-major order
   Int const p = params.p;
   ComplexF const im(0, 1);
+  An(p - 1, 0) = 0; // The same entry as (0, 0), if p = 1
   An(0, 0) = d;
-  An(p - 1, 0) = u * um2::exp(im * alpha * params.delta);
+  An(p - 1, 0) += u * um2::exp(im * alpha * params.delta);
   for (Int i = 1; i < p; ++i) {
     An(i - 1, i) = u;
     An(i, i) = d;
@@ -80,8 +81,9 @@ set_Bn(Matrix<ComplexF> & Bn, Matrix<ComplexF> const & An, CMFDCellParams const
   // Traverse in column-major order
   Int const p = params.p;
   ComplexF const im(0, 1);
+  Bn(p - 1, 0) = 0; // The same entry as (0, 0), if p = 1
   Bn(0, 0) = d;
-  Bn(p - 1, 0) = u * um2::exp(im * alpha * params.delta);
+  Bn(p - 1, 0) += u * um2::exp(im * alpha * params.delta);
   for (Int i = 1; i < p; ++i) {
     Bn(i - 1, i) = u;
     Bn(i, i) = d;
-- 
2.43.0


From 6313c66cf9b6f5ec9a221929777019427617c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:39 +0000
Subject: [PATCH 50/57] fix: intersect a ray lying in the plane of a box face
 with the box

For such a ray one slab distance is 0/0. The NaN found its way into
the result, so the box was reported as missed or as hit at the wrong
distances. Order the arguments so that the NaN is ignored.
---
 include/um2/geometry/axis_aligned_box.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/um2/geometry/axis_aligned_box.hpp b/include/um2/geometry/axis_aligned_box.hpp
index fb21bc1..7223b3b 100644
--- a/include/um2/geometry/axis_aligned_box.hpp
+++ b/include/um2/geometry/axis_aligned_box.hpp
@@ -285,9 +285,11 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray) const noexcept -> Vec2<T>
   Vec<D, T> const inv_dir = ray.inverseDirection();
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
+  // vt1 or vt2 is NaN if the ray is parallel to a face and starts in its plane. min and max
+  // return the first argument if the second is NaN, hence the order matters.
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
@@ -302,9 +304,11 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray,
   T tmax = infDistance<T>();
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
+  // vt1 or vt2 is NaN if the ray is parallel to a face and starts in its plane. min and max
+  // return the first argument if the second is NaN, hence the order matters.
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
-- 
2.43.0


From 1878dee2c06afc85bacf63d144fc2ce6c1bc16e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:09 +0000
Subject: [PATCH 51/57] fix: report truncated nuclide libraries instead of
 reading past the end

Reading a library file cut short parsed empty lines as data. Without
assertions this ended in null pointer reads, out-of-bounds writes or
silently different data. The same happened when the file held more
nuclides than its header announces. Both are now reported as errors.
---
 src/physics/cross_section_library.cpp | 38 +++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index e8d7668..6c2be9c 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -40,6 +40,15 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
   uint64_t const max_line_length = 32768;
   char line[max_line_length];
 
+  // Only the %END line may be the last line of the file
+  auto const is_truncated = [&file, &filename]() -> bool {
+    if (file.good()) {
+      return false;
+    }
+    LOG_ERROR("Unexpected end of MPACT library file: ", filename);
+    return true;
+  };
+
   // %VER
   // -----------------------------------------------------------
   file.getline(line, max_line_length);
@@ -71,6 +80,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
   file.getline(line, max_line_length);
+  if (is_truncated()) {
+    return;
+  }
   line_view = StringView(line);
   // Parse 10 integers:
   //  num_groups: The number of energy groups
@@ -109,6 +121,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
   file.getline(line, max_line_length);
+  if (is_truncated()) {
+    return;
+  }
   line_view = StringView(line);
   line_view.removeLeadingSpaces();
   auto & group_bounds = lib.groupBounds();
@@ -119,6 +134,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
       file.getline(line, max_line_length);
+      if (is_truncated()) {
+        return;
+      }
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
       token = line_view.getTokenAndShrink();
@@ -143,6 +161,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
   file.getline(line, max_line_length);
+  if (is_truncated()) {
+    return;
+  }
   line_view = StringView(line);
   auto & chi = lib.chi();
   chi.resize(num_groups);
@@ -152,6 +173,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
       file.getline(line, max_line_length);
+      if (is_truncated()) {
+        return;
+      }
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
       token = line_view.getTokenAndShrink();
@@ -203,6 +227,14 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
   auto & nuclides = lib.nuclides();
   nuclides.resize(num_nuclides);
   while (!line_view.starts_with("%END")) {
+    if (is_truncated()) {
+      return;
+    }
+    if (nuclide_ctr == num_nuclides) {
+      LOG_ERROR("More nuclides than announced in MPACT library file: ", filename);
+      return;
+    }
+
     // Skip the %NUC token
     StringView token = line_view.getTokenAndShrink();
 
@@ -256,6 +288,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     line_view.removeLeadingSpaces();
     ASSERT(line_view.starts_with("TP1+"));
     file.getline(line, max_line_length);
+    if (is_truncated()) {
+      return;
+    }
     line_view = StringView(line);
     line_view.removeLeadingSpaces();
     for (Int itemp = 0; itemp < num_temps; ++itemp) {
@@ -287,6 +322,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
       for (Int itemp = 0; itemp < num_temps; ++itemp) {
 
         file.getline(line, max_line_length);
+        if (is_truncated()) {
+          return;
+        }
         line_view = StringView(line);
         line_view.removeLeadingSpaces();
 
-- 
2.43.0


From 88c4f77e2d3ca72068b5c1d67060a950c89feebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:36 +0000
Subject: [PATCH 52/57] fix: report the most negative integers in VTK cell data

The magnitude of the smallest 64 bit integer cannot be represented, so
integers at or below it were stored altered instead of being reported.
---
 src/mesh/polytope_soup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 8ac17a7..3169cf1 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1060,7 +1060,7 @@ vtkParseCellData(PolytopeSoup & soup, std::ifstream & file, char * const line,
           // If Float == double, then the significand is 52 bits (excluding the sign bit)
           // Hence, we can safely convert all integers less than 2^52 to double
           int64_t constexpr max_int = 1LL << 52;
-          if (um2::abs(ivalue) > max_int) {
+          if (ivalue < -max_int || max_int < ivalue) {
             LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a double");
             return;
           }
@@ -1068,7 +1068,7 @@ vtkParseCellData(PolytopeSoup & soup, std::ifstream & file, char * const line,
           // If Float == float, then the significand is 23 bits (excluding the sign bit)
           // Hence, we can safely convert all integers less than 2^23 to float
           int64_t constexpr max_int = 1LL << 23;
-          if (um2::abs(ivalue) > max_int) {
+          if (ivalue < -max_int || max_int < ivalue) {
             LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a float");
             return;
           }
-- 
2.43.0


From 248bee713e3b487ecd45fe04476e648f592acd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:47 +0000
Subject: [PATCH 53/57] fix: recognise quadratic quadrilaterals whose opposite
 edges cross

Opposite edges share no vertex, so a single intersection already means
that the quadrilateral crosses itself. Only two or more were noticed.
---
 include/um2/geometry/polygon.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/um2/geometry/polygon.hpp b/include/um2/geometry/polygon.hpp
index 3cac193..bd9f3f1 100644
--- a/include/um2/geometry/polygon.hpp
+++ b/include/um2/geometry/polygon.hpp
@@ -285,11 +285,12 @@ hasSelfIntersection(PlanarQuadraticPolygon<N, T> const & poly,
   }
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
+  // These edges should not intersect.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       return true;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       return true;
     }
   }
@@ -344,12 +345,13 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
   }
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
+  // These edges should not intersect.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       e0 = 0;
       e1 = 2;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       e0 = 1;
       e1 = 3;
     }
@@ -377,7 +379,9 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
   edge0[2] += disp;
 
   // Check that the intersection is fixed.
-  if (edge0.intersect(edge1, buffer) > 1) {
+  // Opposite edges of a quadrilateral do not share a vertex.
+  Int const num_shared = (m == 4 && um2::abs(e0 - e1) == 2) ? 0 : 1;
+  if (edge0.intersect(edge1, buffer) > num_shared) {
     return false;
   }
 
-- 
2.43.0


From 5ed785ac6c7f119a17e68f26fe3225daee9cd877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:47 +0000
Subject: [PATCH 54/57] fix: allow more than two intersections of quadratic
 segments

Two quadratic segments may meet in up to four points. The assertion
ended the process for triangles whose neighbouring edges meet three times.
---
 include/um2/geometry/quadratic_segment.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index adacdb3..ecb760b 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -126,7 +126,7 @@ public:
     requires(D == 2);
 
   // Intersect with another segment.
-  // Returns the number of valid intersections [0, 2].
+  // Returns the number of valid intersections [0, 4].
   // The intersection points are stored in the buffer.
   HOSTDEV [[nodiscard]] constexpr auto
   intersect(QuadraticSegment2<T> const & other, Point2<T> * buffer) const noexcept -> Int
@@ -820,7 +820,7 @@ intersect(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
       }
     }
   }
-  ASSERT(num_intersections <= 2);
+  ASSERT(num_intersections <= 4);
   ASSERT(num_intersections >= 0);
   return num_intersections;
 }
-- 
2.43.0


From b5b2eb03636e1347f700beaf206fdb1f8b1a1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:29:13 +0000
Subject: [PATCH 55/57] fix: stop combining CAD shapes once the input is
 refused

A malformed list of objects or tools was reported as an error, but the
operation went ahead and destroyed the physical groups of the model.
---
 src/gmsh/model.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 709a927..03a0ae3 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -449,6 +449,9 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Fragment the object and tool
@@ -539,6 +542,9 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Intersect the object and tool
@@ -621,6 +627,9 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Cut the object and tool
-- 
2.43.0


From 8372486e7a20172ee6c423419950ea98ec80f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:29:56 +0000
Subject: [PATCH 56/57] fix: refuse CAD pins with repeated radii

Equal radii passed the check for strictly increasing radii and gave
rings without area.
---
 src/gmsh/model.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 03a0ae3..dbb1699 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -706,9 +706,11 @@ addCylindricalPin2D(Vec2F const & center, Vector<Float> const & radii,
     LOG_ERROR("radii must be positive");
     return out_tags;
   }
-  if (!um2::is_sorted(radii.cbegin(), radii.cend())) {
-    LOG_ERROR("radii must be strictly increasing");
-    return out_tags;
+  for (Int i = 1; i < nradii; ++i) {
+    if (radii[i] <= radii[i - 1]) {
+      LOG_ERROR("radii must be strictly increasing");
+      return out_tags;
+    }
   }
   // Create the pin geometry
   out_tags.reserve(nradii);
-- 
2.43.0


From 3252d2f1b3bfbef5ee166689d40e98fa0295e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:33:08 +0000
Subject: [PATCH 57/57] fix: check the rings and the map of a CAD pin lattice

A lattice accepted pins that are refused one by one, read beyond the
materials of a pin, and read the first row of an empty map.
---
 src/gmsh/model.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index dbb1699..42dfe9d 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -795,6 +795,26 @@ addCylindricalPinLattice2D(Vector<Vector<Int>> const & pin_ids,
     LOG_ERROR("Number of radii vectors must be equal to number of xy_extents");
     return out_tags;
   }
+  // Ensure the rings of each pin are valid. A pin may have no rings.
+  for (Int i = 0; i < nunique_pins; ++i) {
+    Int const nrad = radii[i].size();
+    if (nrad != 0 && nrad != materials[i].size()) {
+      LOG_ERROR("Number of radii must equal to the number of materials");
+      return out_tags;
+    }
+    Float r_prev = 0;
+    for (auto const & r : radii[i]) {
+      if (r <= r_prev) {
+        LOG_ERROR("radii must be positive and strictly increasing");
+        return out_tags;
+      }
+      r_prev = r;
+    }
+  }
+  if (pin_ids.empty() || pin_ids[0].empty()) {
+    LOG_ERROR("pin_ids must not be empty");
+    return out_tags;
+  }
   // Ensure each row of pin_ids has the same length
   auto const ncol = pin_ids[0].size();
   for (auto const & row : pin_ids) {
-- 
2.43.0

