From 33379e6b6314fb2e4c57f547bb520ed56f1deb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 01/25] fix: const arrays hand out const views from slicing and
 for_each_value

---
 include/array/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..2a1f7b9 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2564,11 +2564,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(base(), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(base(), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
@@ -2579,7 +2579,7 @@ public:
   }
   template <class Fn, class = internal::enable_if_callable<Fn, const_reference>>
   void for_each_value(Fn&& fn) const {
-    shape_traits_type::for_each_value(shape_, base_, fn);
+    shape_traits_type::for_each_value(shape_, base(), fn);
   }
 
   /** Pointer to the element at the min index of the shape. */
-- 
2.43.0


From 5817e2e4cc563074c6e90dbb79f224d1955eddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 02/25] fix: move_reinterpret_shape checks the subset relation
 with the right offset sign

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 2a1f7b9..560dc28 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3051,7 +3051,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From 66f50da1d5397edb222c1e56b01d702b5a468b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 03/25] fix: make_move of an rvalue array moves it instead of
 copying

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 560dc28..e360848 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2880,7 +2880,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return std::move(src);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 83c42b91705b1aa4aabf20acafba46cfd3a0eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 04/25] fix: an empty array with a negative flat_min has a null
 base

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index e360848..a609d47 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From 83bc966ccb0cb9aed0ab699ad2fb040495a1c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 05/25] fix: assign(shape, value) reallocates an array that has
 lost its storage

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index a609d47..8b7ce9f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2526,7 +2526,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From 4770656b17de19402253b344d0f01c61e99896d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 06/25] fix: reshape allocates with the array's own allocator

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 8b7ce9f..978a387 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2630,7 +2630,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     Shape intersection =
-- 
2.43.0


From a18217dca530e58209b301255c7b7c1ac4b49f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 07/25] fix: traversals do not move from callables the caller
 passed as lvalues

---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 978a387..1875ff7 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1951,7 +1951,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&fn](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1959,14 +1959,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&fn](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&fn](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2916,7 +2916,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&g](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2931,7 +2931,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2945,7 +2945,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..7a97f13 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..1417403 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From 5bfaa6824a37c26c1a3e1e494f0b2f1325413b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 08/25] fix: cropping an image to a region outside of it gives
 an empty crop

---
 include/array/image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 7a97f13..b645da9 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -154,8 +154,8 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
     index_t y1, crop_origin origin = crop_origin::crop) {
   x0 = internal::max(x0, im.x().min());
   y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  x1 = internal::max(x0, internal::min(x1, im.x().max() + 1));
+  y1 = internal::max(y0, internal::min(y1, im.y().max() + 1));
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 9026645be01ab076c37e2a8fdcb56bceb4a3492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 09/25] fix: z-order traversal of an empty range does not call
 fn

---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..f958244 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any extent is zero, there is nothing to iterate over.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 1e7c9d4d61d5a167e23a3210b8460df8c7d5f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 10/25] fix: make_compact places dims after the static strides
 it keeps, without gaps or overlap

---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 1875ff7..5960b67 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. Dimensions that already have a
+  // static stride are already accounted for by CurrentStride.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
@@ -1516,7 +1518,7 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
 template <class Dims, size_t... Is>
 NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is...>) {
   // Currently, the algorithm is:
-  // - If any dimension has a static stride greater than one, don't give any
+  // - If any dimension has a static stride of magnitude greater than one, don't give any
   //   static strides.
   // - If all dimensions are dynamic, use 1 as the next stride.
   // - If a dimension has static stride 1, use its Extent as the next stride.
@@ -1526,7 +1528,7 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne = any((static_abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0


From 823ca8db575dbe764df164aaaa174efbb77081af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 11/25] fix: assignment between empty arrays propagates the
 allocator

---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 5960b67..37d9ba4 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2440,6 +2440,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
         shape_ = other.shape_;
         assert(shape_.empty());
       }
@@ -2465,6 +2468,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
         swap(shape_, other.shape_);
         assert(shape_.empty());
       }
-- 
2.43.0


From ff1746e1bc623bc7c9c31410192a549fffb365f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 12/25] fix: reshape to a box disjoint from the old one in two
 dims does not assert

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 37d9ba4..8eb5450 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1553,7 +1553,7 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  index_t extent = internal::max<index_t>(0, max - min + 1);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
-- 
2.43.0


From 4279b7fbe89cacc3dc9291f1729754115b5d78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 13/25] fix: transpose rejects dimension lists with repeats at
 rank 5 and above

---
 include/array/array.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 8eb5450..360d61d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -981,13 +981,13 @@ NDARRAY_HOST_DEVICE bool is_trivial_slice(
   return all((Is < DstRank || std::get<Is>(src_dims).extent() == 1)...);
 }
 
-constexpr index_t factorial(index_t x) { return x == 1 ? 1 : x * factorial(x - 1); }
-
-// The errors that result from not satisfying this check are probably hell,
-// but it would be pretty tricky to check that all of [0, Rank) is in `Is...`
+// The errors that result from not satisfying this check are probably hell.
+// `Rank` powers of two sum to 2^Rank - 1 only if they are all distinct.
 template <size_t Rank, size_t... Is>
-using enable_if_permutation = std::enable_if_t<sizeof...(Is) == Rank && all(Is < Rank...) &&
-                                               product((Is + 2)...) == factorial(Rank + 1)>;
+using enable_if_permutation =
+    std::enable_if_t<sizeof...(Is) == Rank && all(Is < Rank...) &&
+                     sum((static_cast<index_t>(1) << Is)...) ==
+                         (static_cast<index_t>(1) << Rank) - 1>;
 
 template <class DimDst, class DimSrc>
 NDARRAY_HOST_DEVICE void assert_dim_compatible(size_t dim_index, const DimSrc& src) {
-- 
2.43.0


From 1876f122cb2f1b18e488c18ddb9a4c0f71b83ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 14/25] fix: auto_allocator with a custom base allocator can be
 compared

---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 360d61d..dcee78e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3171,8 +3171,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3180,8 +3181,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0


From 7a30c9f588ee9b42d036aeb528d1e891d246a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 15/25] fix: uninitialized_auto_allocator aligns its buffer
 like the type, not to its size

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dcee78e..69b2302 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3242,7 +3242,7 @@ using uninitialized_std_allocator = uninitialized_allocator<std::allocator<T>>;
 
 /** Allocator equivalent to `auto_allocator<T, N, Alignment>` that
  * does not default construct values. */
-template <class T, size_t N, size_t Alignment = sizeof(T),
+template <class T, size_t N, size_t Alignment = alignof(T),
     class = std::enable_if_t<std::is_trivial<T>::value>>
 using uninitialized_auto_allocator = uninitialized_allocator<auto_allocator<T, N, Alignment>>;
 
-- 
2.43.0


From a21384ea24833b0bf90248e568240d0d672f38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 16/25] fix: is_explicitly_compatible accepts shapes of
 different rank

---
 include/array/array.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 69b2302..10ab581 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1546,6 +1546,22 @@ NDARRAY_HOST_DEVICE bool is_shape_compatible(
   return all(is_dim_compatible(DimsDst(), src.template dim<Is>())...);
 }
 
+// Same as above, but for dims beyond the rank of the source, which get extent 1.
+template <size_t I, class DimDst, class... Us, std::enable_if_t<(I < sizeof...(Us)), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_explicitly_compatible(const std::tuple<Us...>& src) {
+  return is_dim_compatible(DimDst(), std::get<I>(src));
+}
+template <size_t I, class DimDst, class... Us, std::enable_if_t<(I >= sizeof...(Us)), int> = 0>
+NDARRAY_HOST_DEVICE bool is_dim_explicitly_compatible(const std::tuple<Us...>&) {
+  return is_dynamic(DimDst::Extent) || DimDst::Extent == 1;
+}
+
+template <class... DimsDst, class ShapeSrc, size_t... Is>
+NDARRAY_HOST_DEVICE bool is_shape_explicitly_compatible(
+    const shape<DimsDst...>&, const ShapeSrc& src, index_sequence<Is...>) {
+  return all(is_dim_explicitly_compatible<Is, DimsDst>(src.dims())...);
+}
+
 template <class DimA, class DimB>
 NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Min = static_max(DimA::Min, DimB::Min);
@@ -1675,7 +1691,10 @@ NDARRAY_HOST_DEVICE ShapeDst convert_shape(const ShapeSrc& src) {
 template <class ShapeDst, class ShapeSrc,
     class = internal::enable_if_shapes_explicitly_compatible<ShapeSrc, ShapeDst>>
 NDARRAY_HOST_DEVICE bool is_explicitly_compatible(const ShapeSrc& src) {
-  return internal::is_shape_compatible(ShapeDst(), src, typename ShapeSrc::dim_indices());
+  return internal::is_trivial_slice<ShapeDst::rank()>(
+             src.dims(), typename ShapeSrc::dim_indices()) &&
+         internal::is_shape_explicitly_compatible(
+             ShapeDst(), src, typename ShapeDst::dim_indices());
 }
 
 /** Iterate over all indices in the shape, calling a function `fn` for each set
-- 
2.43.0


From 7925df4fafe40551183b68257a9f70cdb059433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 17/25] fix: functions that device code needs are annotated and
 do not call std::swap

---
 include/array/array.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 10ab581..a097379 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -185,7 +185,7 @@ class index_iterator {
 
 public:
   /** Construct the iterator with an index `i`. */
-  index_iterator(index_t i) : i_(i) {}
+  NDARRAY_HOST_DEVICE index_iterator(index_t i) : i_(i) {}
 
   /** Access the current index of this iterator. */
   NDARRAY_INLINE NDARRAY_HOST_DEVICE index_t operator*() const { return i_; }
@@ -1033,7 +1033,7 @@ NDARRAY_HOST_DEVICE const DimsSrc& assert_dims_compatible(const DimsSrc& src) {
 
 /** Return a tuple of generic `dims` with same min and extents and all strides set to `unresolved`. */
 template <class Dims, size_t... Is>
-auto bounds_tuple(const Dims& dims, index_sequence<Is...>) {
+NDARRAY_HOST_DEVICE auto bounds_tuple(const Dims& dims, index_sequence<Is...>) {
     return std::make_tuple(dim<>(std::get<Is>(dims).min(), std::get<Is>(dims).extent(), unresolved)...);
 }
 
@@ -1767,9 +1767,11 @@ struct copy_dims {
   dim<> dst;
 };
 
-inline bool operator<(const dim<>& l, const dim<>& r) { return l.stride() < r.stride(); }
+NDARRAY_INLINE NDARRAY_HOST_DEVICE bool operator<(const dim<>& l, const dim<>& r) {
+  return l.stride() < r.stride();
+}
 
-inline bool operator<(const copy_dims& l, const copy_dims& r) {
+NDARRAY_INLINE NDARRAY_HOST_DEVICE bool operator<(const copy_dims& l, const copy_dims& r) {
   return l.dst.stride() < r.dst.stride();
 }
 
@@ -1780,7 +1782,12 @@ template <class Iterator>
 NDARRAY_HOST_DEVICE void bubble_sort(Iterator begin, Iterator end) {
   for (Iterator i = begin; i != end; ++i) {
     for (Iterator j = i; j != end; ++j) {
-      if (*j < *i) { std::swap(*i, *j); }
+      if (*j < *i) {
+        // std::swap is not available in device code.
+        auto t = *i;
+        *i = *j;
+        *j = t;
+      }
     }
   }
 }
@@ -2148,7 +2155,7 @@ public:
   NDARRAY_HOST_DEVICE const auto& dim() const {
     return shape_.template dim<D>();
   }
-  const nda::dim<> dim(size_t d) const { return shape_.dim(d); }
+  NDARRAY_HOST_DEVICE const nda::dim<> dim(size_t d) const { return shape_.dim(d); }
   NDARRAY_HOST_DEVICE size_type size() const { return shape_.size(); }
   /** Returns a shape with dynamic dims, with the same min and extents but
    * strides initialized to `nda::unresolved`. This can be used to create
@@ -3041,7 +3048,7 @@ const_array_ref<U, Shape> reinterpret(const array<T, Shape, Alloc>& a) {
 /** Reinterpret the const_array_ref `a` of type `T` (aka array_ref<const T>) to have a different
  * type `U` using `const_cast`. */
 template <class U, class T, class Shape>
-array_ref<U, Shape> reinterpret_const(const const_array_ref<T, Shape>& a) {
+NDARRAY_HOST_DEVICE array_ref<U, Shape> reinterpret_const(const const_array_ref<T, Shape>& a) {
   return array_ref<U, Shape>(const_cast<U*>(a.base()), a.shape(), internal::no_resolve{});
 }
 
-- 
2.43.0


From c9c9c2d70f4ab1ead3cf47088c850a35a6b55c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 18/25] fix: auto_allocators of different types can be compared

---
 include/array/array.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index a097379..3f87852 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3151,6 +3151,19 @@ class auto_allocator {
   bool allocated;
   BaseAlloc alloc;
 
+  // Comparing auto_allocators of different types needs access to both.
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend class auto_allocator;
+
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  bool is_equal(const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) const {
+    if (allocated || b.allocated) {
+      return &buffer[0] == &b.buffer[0];
+    } else {
+      return alloc == b.alloc;
+    }
+  }
+
 public:
   using value_type = T;
 
@@ -3200,11 +3213,7 @@ public:
   template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
   friend bool operator==(
       const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
-    if (a.allocated || b.allocated) {
-      return &a.buffer[0] == &b.buffer[0];
-    } else {
-      return a.alloc == b.alloc;
-    }
+    return a.is_equal(b);
   }
 
   template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
-- 
2.43.0


From daf28723f98fe1fb315846d46712d37f4ae60bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 19/25] fix: make_copy of an array_ref to a new shape is not
 ambiguous

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3f87852..c05a5ae 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2822,7 +2822,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 
 /** Make a copy of the `src` array or array_ref with a new allocator `alloc`. */
 template <class T, class ShapeSrc,
-    class Alloc = std::allocator<typename std::remove_const<T>::type>>
+    class Alloc = std::allocator<typename std::remove_const<T>::type>,
+    class = internal::enable_if_allocator<Alloc>>
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
-- 
2.43.0


From 94802c313c892dfa08d2b8269be555174f6f7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 20/25] fix: ein_reduce reconciles every dim of an operand
 addressed by the same index

---
 include/array/ein_reduce.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..6f2d135 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -277,13 +277,13 @@ template <index_t NewStride, index_t Min, index_t Extent, index_t Stride>
 NDARRAY_INLINE auto with_stride(const dim<Min, Extent, Stride>& d) {
   return dim<Min, Extent, NewStride>(d.min(), d.extent());
 }
-template <index_t NewStride, class Dim>
-NDARRAY_INLINE auto with_stride(const std::tuple<Dim>& maybe_dim) {
-  return std::make_tuple(with_stride<NewStride>(std::get<0>(maybe_dim)));
+template <index_t NewStride, class... Dims, size_t... Is>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims, index_sequence<Is...>) {
+  return std::make_tuple(with_stride<NewStride>(std::get<Is>(dims))...);
 }
-template <index_t NewStride>
-NDARRAY_INLINE std::tuple<> with_stride(std::tuple<> maybe_dim) {
-  return maybe_dim;
+template <index_t NewStride, class... Dims>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims) {
+  return with_stride<NewStride>(dims, make_index_sequence<sizeof...(Dims)>());
 }
 
 // These types are flags that let us overload behavior based on these 3 options.
@@ -291,21 +291,32 @@ class is_inferred_shape {};
 class is_result_shape {};
 class is_operand_shape {};
 
-// Get a dim from an operand, depending on the intended use of the shape.
+// Get all of the dims of an operand that are addressed by the index `Dim`. There can be more than
+// one, e.g. both dims of `ein<i, i>(A)` are addressed by `i`.
+template <size_t Dim, class Op, size_t... Is, size_t... Js>
+NDARRAY_INLINE auto dims_addressed_by(const ein_op<Op, Is...>& op, index_sequence<Js...>) {
+  return std::tuple_cat(get_or_empty<(Is == Dim ? Js : sizeof...(Is))>(dims_of(op.op))...);
+}
+template <size_t Dim, class Op, size_t... Is>
+NDARRAY_INLINE auto dims_addressed_by(const ein_op<Op, Is...>& op) {
+  return dims_addressed_by<Dim>(op, make_index_sequence<sizeof...(Is)>());
+}
+
+// Get the dims from an operand, depending on the intended use of the shape.
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
   // If this is part of the result, we want to keep its strides.
-  return get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op));
+  return dims_addressed_by<Dim>(op);
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
   // For inferred shapes, we want shapes without any constexpr strides, so it can be reshaped.
-  return with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<dynamic>(dims_addressed_by<Dim>(op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_operand_shape, const ein_op<Dims, Is...>& op) {
   // If this is an operand shape, we want all of its dimensions to be stride 0.
-  return with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<0>(dims_addressed_by<Dim>(op));
 }
 
 template <size_t Dim, class Kind, class Op, class X>
-- 
2.43.0


From 2a05bf072e2c608bd0fbf45e224c125ea9f8bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 21/25] fix: min and max of ein operands of the same type are
 not ambiguous with internal::min and max

---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index c05a5ae..1bd55eb 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -166,14 +166,15 @@ public:
   NDARRAY_INLINE NDARRAY_HOST_DEVICE operator index_t() const { return value_; }
 };
 
-// Defined here to avoid pulling in <algorithm>.
+// Defined here to avoid pulling in <algorithm>. These do not apply to types that can't be compared,
+// so calls found via ADL can have other meanings for such types.
 template <typename T>
-constexpr const T& max(const T& a, const T& b) {
+constexpr auto max(const T& a, const T& b) -> decltype((a < b) ? b : a) {
   return (a < b) ? b : a;
 }
 
 template <typename T>
-constexpr const T& min(const T& a, const T& b) {
+constexpr auto min(const T& a, const T& b) -> decltype((b < a) ? b : a) {
   return (b < a) ? b : a;
 }
 
-- 
2.43.0


From 226c3b6163584f45516ceaa5996df215e4dfa157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 22/25] fix: assigning an ein operand of the same type makes an
 assignment expression

---
 include/array/ein_reduce.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 6f2d135..7344893 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -74,6 +74,8 @@ template <class Op, size_t... Is>
 struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
   Op op;
   ein_op(Op op) : op(std::move(op)) {}
+  ein_op(const ein_op&) = default;
+  ein_op(ein_op&&) = default;
 
   // The largest dimension used by this operand.
   static constexpr index_t MaxIndex = sizeof...(Is) == 0 ? -1 : variadic_max(Is...);
@@ -86,7 +88,9 @@ struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
     return op(std::get<Is>(i)...);
   }
 
-  // Only ein_op has assignment operators.
+  // Only ein_op has assignment operators. Assigning an operand of the same type must not be the
+  // implicit copy assignment.
+  auto operator=(const ein_op& r) const { return make_ein_op_assign(*this, r); }
   template <class T, class = enable_if_ein_op<T>>
   auto operator=(const T& r) const {
     return make_ein_op_assign(*this, r);
-- 
2.43.0


From a431ec9e9388ac846b9aebd3607b1ed0b798327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 23/25] fix: ein accepts lvalue array_refs of rank 0

---
 include/array/ein_reduce.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 7344893..60e275c 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -364,6 +364,16 @@ template <size_t... Is, class T, class Shape, class Alloc,
 auto ein(const array<T, Shape, Alloc>& op) {
   return ein<Is...>(op.ref());
 }
+template <size_t... Is, class T, class Shape,
+    class = std::enable_if_t<sizeof...(Is) == Shape::rank()>>
+auto ein(array_ref<T, Shape>& op) {
+  return internal::ein_op<array_ref<T, Shape>, Is...>(op);
+}
+template <size_t... Is, class T, class Shape,
+    class = std::enable_if_t<sizeof...(Is) == Shape::rank()>>
+auto ein(const array_ref<T, Shape>& op) {
+  return internal::ein_op<array_ref<T, Shape>, Is...>(op);
+}
 
 /** Define an Einstein summation operand for a scalar. The scalar
  * is broadcasted as needed during the summation. Because this
-- 
2.43.0


From b0b86f17349af2ef320a9fd8587ba829f495a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 24/25] fix: z-order traversal of standard containers when
 NDARRAY_INT_INDICES is defined

The extents are differences of iterators, and narrowing those to int in an
initializer list does not compile.
---
 include/array/z_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index f958244..cf62348 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -85,7 +85,7 @@ NDARRAY_UNIQUE void for_each_in_z_order_impl(
     const std::tuple<Ranges...>& ranges, const Fn& fn, index_sequence<Is...>) {
   constexpr size_t Rank = sizeof...(Is);
   std::array<index_t, Rank> extents = {
-      {(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
+      {static_cast<index_t>(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
   for_each_index_in_z_order(extents, [&](const std::array<index_t, Rank>& i) {
     fn(std::make_tuple(*(std::begin(std::get<Is>(ranges)) + std::get<Is>(i))...));
   });
-- 
2.43.0


From 09960beb5787f7af3da33dcbc0e75ba2de5cc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 25/25] fix: reshape of arrays with a static extent moves only
 the elements both shapes have

The intersection of the old and new shapes was converted back to the shape
type, which replaced its extent with the static one, so moving to a different
min read and wrote out of bounds.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 1bd55eb..76c81d4 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2668,11 +2668,11 @@ public:
     array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0

