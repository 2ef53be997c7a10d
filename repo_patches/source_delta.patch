From 21147da0af6645c2595e098b42bcc0d05292f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 01/12] fix: keep the base of an array without an allocation
 null

allocate() subtracted flat_min from a null buffer, so an empty array whose
flat_min is not 0 got a non-null base: undefined behaviour, and deallocate()
returned memory to the allocator that was never allocated.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..7c182b5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From a0f9d9d67a88cd35d31b74692f9a72cdd8139833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 02/12] fix: move_reinterpret_shape checks the new shape at its
 offset, not at the negated one

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7c182b5..5943267 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3051,7 +3051,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From d93bd9a19d5905d54a216a14a8dc7f2965c89a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 03/12] fix: do not offset a null base in
 move_reinterpret_shape

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5943267..a1ce970 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3065,7 +3065,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
-  result.base_ += offset;
+  result.base_ = internal::pointer_add(result.base_, offset);
 
   return result;
 }
-- 
2.43.0


From 4f57d09a39dc395a95758b92289be5f938342490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 04/12] fix: assigning a value to a moved-from array of static
 shape allocates it again

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index a1ce970..7738726 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2526,7 +2526,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From 3c45c0ca49308b25966d02b83b956bd15d890516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 05/12] fix: reshape of a dimension with a compile-time extent
 to another min

---
 include/array/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7738726..c6ad97d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2633,11 +2633,12 @@ public:
     array new_array(new_shape);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    // The intersection may have a smaller extent than a compile-time extent of Shape.
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0


From f8a20e048457088bb26c56a7ad145f391102c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 06/12] fix: a crop that does not meet the image is empty, not
 of negative extent

---
 include/array/image.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..76420d4 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -152,10 +152,10 @@ Shape crop_image_shape(Shape s, index_t x0, index_t y0, index_t x1, index_t y1,
 template <class T, class Shape>
 array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0, index_t x1,
     index_t y1, crop_origin origin = crop_origin::crop) {
-  x0 = internal::max(x0, im.x().min());
-  y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  x0 = nda::clamp(x0, im.x().min(), im.x().max() + 1);
+  y0 = nda::clamp(y0, im.y().min(), im.y().max() + 1);
+  x1 = nda::clamp(x1, x0, im.x().max() + 1);
+  y1 = nda::clamp(y1, y0, im.y().max() + 1);
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 4dee94d3e7f544cfff5e7830623b6a15d50534eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 07/12] fix: reshape to a shape without elements in common with
 the old one

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index c6ad97d..82b2bf4 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1551,7 +1551,7 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  index_t extent = internal::max<index_t>(0, max - min + 1);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
-- 
2.43.0


From 02b36e2885730fe089aac07c214d1af17d52cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 08/12] fix: assignment between arrays without memory
 propagates the allocator when it says so

---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 82b2bf4..7b48473 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2438,6 +2438,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
         shape_ = other.shape_;
         assert(shape_.empty());
       }
@@ -2463,6 +2466,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
         swap(shape_, other.shape_);
         assert(shape_.empty());
       }
-- 
2.43.0


From a48b0606778b4a349f64746e6c4ea5df32c471bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 09/12] fix: reshape allocates with the allocator of the array

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7b48473..b02d60b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2636,7 +2636,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     // The intersection may have a smaller extent than a compile-time extent of Shape.
-- 
2.43.0


From 162fe491051acde561a556ff2537e712f9af7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 10/12] fix: make_move of an array that is given up moves its
 elements

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index b02d60b..f0bace1 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2887,7 +2887,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return std::move(src);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 91c525aae511daad948ccd0a1bedaf23c8a22369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 11/12] fix: is_compatible is true for shapes whose unknown
 strides can be assigned

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index f0bace1..5310211 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1535,7 +1535,7 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
 template <index_t Min, index_t Extent, index_t Stride, class DimSrc>
 NDARRAY_HOST_DEVICE bool is_dim_compatible(const dim<Min, Extent, Stride>&, const DimSrc& src) {
   return (is_dynamic(Min) || src.min() == Min) && (is_dynamic(Extent) || src.extent() == Extent) &&
-         (is_dynamic(Stride) || src.stride() == Stride);
+         (is_dynamic(Stride) || is_unresolved(src.stride()) || src.stride() == Stride);
 }
 
 template <class... DimsDst, class ShapeSrc, size_t... Is>
-- 
2.43.0


From 0b4611b75a5836614948ca6d80cff45ac9a06896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 12/12] fix: make_compact of shapes with a dense dimension
 leaves no padding and no overlap

---
 include/array/array.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5310211..caffe14 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. If this dimension has a
+  // stride already, it does not use the current stride.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
@@ -1516,8 +1518,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
 template <class Dims, size_t... Is>
 NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is...>) {
   // Currently, the algorithm is:
-  // - If any dimension has a static stride greater than one, don't give any
-  //   static strides.
+  // - If any dimension has a static stride other than zero or one, or static
+  //   stride 1 and an unknown extent, don't give any static strides.
   // - If all dimensions are dynamic, use 1 as the next stride.
   // - If a dimension has static stride 1, use its Extent as the next stride.
   // This is very conservative, but the only thing I can figure out how to
@@ -1526,9 +1528,14 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyOtherStride = any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
+                                       std::tuple_element<Is, Dims>::type::Stride != 0 &&
+                                       std::tuple_element<Is, Dims>::type::Stride != 1)...);
+  constexpr bool AnyUnknownDense = any((std::tuple_element<Is, Dims>::type::Stride == 1 &&
+                                        is_dynamic(std::tuple_element<Is, Dims>::type::Extent))...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
-  constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
+  constexpr index_t NextStride =
+      AnyOtherStride || AnyUnknownDense ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
 }
 
-- 
2.43.0

