From 40f7dccb065fbc39e660c00e051a75a1f0061974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 01/98] fix: compute_broadcast_shape aligns trailing dimensions
 and rejects incompatible shapes

It walked the input shape from the front, read past its end when ranks differ and silently accepted shapes that
cannot be broadcast.
---
 .../include/internal/shape_helpers.cpp        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..63129ba 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -56,17 +56,18 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    if (shape.size() > out_shape.size()) {
+        throw std::invalid_argument(
+                fmt::format("Shape {} has too many dimensions to broadcast to {}.", shape, out_shape));
+    }
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+    // Broadcasting aligns the trailing dimensions
+    const size_t offset = out_shape.size() - shape.size();
+    for (size_t i = 0; i < shape.size(); ++i) {
+        if (shape[i] != out_shape[i + offset] && shape[i] != 1) {
+            throw std::invalid_argument(fmt::format("Shape {} cannot be broadcast to {}.", shape, out_shape));
         }
     }
 
-    return broadcast_shape;
+    return out_shape;
 }
-- 
2.43.0


From 812255cb5bd4c1e0b8c264c552ebbf43eb239d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 02/98] fix: unary ops validate shapes first and broadcast
 strides from the input shape

Copying a size-1 dimension into a longer one stepped past the input buffer, and mismatching shapes were accepted.
---
 bland/bland/ops/cpu/elementwise_unary_op.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..24ec5e1 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,6 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
-    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
@@ -45,6 +43,9 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     } else {
         throw std::runtime_error("out rank does not match in rank. Cannot store output in provided tensor");
     }
+    // the strides depend on which dimensions of a (not of the broadcast shape) have one element
+    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape   = compute_broadcast_shape(a_shape, out_shape);
 
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
-- 
2.43.0


From 0ee46d638c6d65ffbbd0f99ab1eb10f827b0d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 03/98] fix: subtract, multiply and comparisons of two arrays
 produce the broadcast shape

The result was sized like the left operand, so broadcasting the left operand lost elements or read out of bounds.
---
 bland/bland/ops/cpu/arithmetic_cpu.cpp |  6 ++++--
 bland/bland/ops/cpu/comparison_cpu.cpp | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..922e546 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray_slice.hpp"
 
 #include "internal/dispatcher.hpp"
+#include "internal/shape_helpers.hpp"
 #include "elementwise_binary_op.hpp"
 #include "elementwise_scalar_op.hpp"
 
@@ -25,7 +26,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +74,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +119,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +164,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +209,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +257,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From 83196242d931462bae53bc13fbaf848d3f2ba36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 04/98] fix: comparisons with the scalar on the left are
 mirrored

"scalar < array" evaluated "array < scalar".
---
 bland/bland/ops/cpu/comparison_cpu.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 922e546..0d60ad2 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -20,7 +20,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs); // scalar is the second operand, so mirror
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -68,7 +68,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs); // scalar is the second operand, so mirror
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -113,7 +113,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs); // scalar is the second operand, so mirror
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -158,7 +158,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs); // scalar is the second operand, so mirror
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From b34595f10f393668e616387c677b29bb00e1f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 05/98] fix: scalar - array and scalar / array

The first returned array - scalar and the second scalar * array.
---
 .../include/bland/ops/ops_arithmetic.hpp      |  7 ++++++
 bland/bland/ndarray.cpp                       |  4 ++--
 bland/bland/ops/arithmetic.cpp                | 21 +++++++++++++++++
 bland/bland/ops/cpu/arithmetic_cpu.hpp        |  6 +++++
 bland/bland/ops/cpu/arithmetic_cpu_impl.hpp   | 13 +++++++++++
 bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp | 23 +++++++++++++++++++
 6 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/bland/bland/include/bland/ops/ops_arithmetic.hpp b/bland/bland/include/bland/ops/ops_arithmetic.hpp
index f1cccfa..c33ff52 100644
--- a/bland/bland/include/bland/ops/ops_arithmetic.hpp
+++ b/bland/bland/include/bland/ops/ops_arithmetic.hpp
@@ -19,5 +19,12 @@ ndarray multiply(ndarray a, T b);
 template <typename T>
 ndarray divide(ndarray a, T b);
 
+// scalar on the left: a - b and a / b for every element of b
+template <typename T>
+ndarray reverse_subtract(T a, ndarray b);
+
+template <typename T>
+ndarray reverse_divide(T a, ndarray b);
+
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..829caf7 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -479,7 +479,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return bland::reverse_subtract(lhs, rhs);
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +569,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return bland::reverse_divide(lhs, rhs);
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
diff --git a/bland/bland/ops/arithmetic.cpp b/bland/bland/ops/arithmetic.cpp
index 8f79ca6..b46c64f 100644
--- a/bland/bland/ops/arithmetic.cpp
+++ b/bland/bland/ops/arithmetic.cpp
@@ -125,3 +125,24 @@ template ndarray bland::divide<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::divide<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::divide<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::divide<uint64_t>(ndarray a, uint64_t b);
+
+template <typename T>
+ndarray bland::reverse_subtract(T a, ndarray b) {
+    return device_dispatch(cpu::reverse_subtract_cpu<T>, nullptr, a, b);
+}
+
+template ndarray bland::reverse_subtract<float>(float a, ndarray b);
+template ndarray bland::reverse_subtract<int32_t>(int32_t a, ndarray b);
+template ndarray bland::reverse_subtract<uint8_t>(uint8_t a, ndarray b);
+template ndarray bland::reverse_subtract<uint32_t>(uint32_t a, ndarray b);
+
+
+template <typename T>
+ndarray bland::reverse_divide(T a, ndarray b) {
+    return device_dispatch(cpu::reverse_divide_cpu<T>, nullptr, a, b);
+}
+
+template ndarray bland::reverse_divide<float>(float a, ndarray b);
+template ndarray bland::reverse_divide<int32_t>(int32_t a, ndarray b);
+template ndarray bland::reverse_divide<uint8_t>(uint8_t a, ndarray b);
+template ndarray bland::reverse_divide<uint32_t>(uint32_t a, ndarray b);
diff --git a/bland/bland/ops/cpu/arithmetic_cpu.hpp b/bland/bland/ops/cpu/arithmetic_cpu.hpp
index a2a999f..edbb5c1 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.hpp
@@ -21,6 +21,12 @@ ndarray multiply_cpu(ndarray a, T b);
 template <typename T>
 ndarray divide_cpu(ndarray a, T b);
 
+template <typename T>
+ndarray reverse_subtract_cpu(T a, ndarray b);
+
+template <typename T>
+ndarray reverse_divide_cpu(T a, ndarray b);
+
 } // namespace cpu
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
index 9bf25a9..319dbf1 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
@@ -49,6 +49,19 @@ template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) { return static_cast<Out>(a / b); }
 };
 
+/**
+ * Reversed operands: used when a scalar is on the left of a non-commutative operation
+*/
+struct elementwise_reverse_subtract_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b - a); }
+};
+
+struct elementwise_reverse_divide_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b / a); }
+};
+
 
 template <typename Out, typename A>
 struct elementwise_copy_op {
diff --git a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
index baa8213..fe94316 100644
--- a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
@@ -85,3 +85,26 @@ template ndarray bland::cpu::divide_cpu<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::cpu::divide_cpu<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::cpu::divide_cpu<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::cpu::divide_cpu<uint64_t>(ndarray a, uint64_t b);
+
+// Scalar on the left: result[i] = a - b[i]
+template <typename T>
+ndarray bland::cpu::reverse_subtract_cpu(T a, ndarray b) {
+    auto out = ndarray(b.shape(), b.dtype(), b.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_reverse_subtract_op_ts>(out, b, a);
+}
+template ndarray bland::cpu::reverse_subtract_cpu<float>(float a, ndarray b);
+template ndarray bland::cpu::reverse_subtract_cpu<int32_t>(int32_t a, ndarray b);
+template ndarray bland::cpu::reverse_subtract_cpu<uint8_t>(uint8_t a, ndarray b);
+template ndarray bland::cpu::reverse_subtract_cpu<uint32_t>(uint32_t a, ndarray b);
+
+
+// Scalar on the left: result[i] = a / b[i]
+template <typename T>
+ndarray bland::cpu::reverse_divide_cpu(T a, ndarray b) {
+    auto out = ndarray(b.shape(), b.dtype(), b.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_reverse_divide_op_ts>(out, b, a);
+}
+template ndarray bland::cpu::reverse_divide_cpu<float>(float a, ndarray b);
+template ndarray bland::cpu::reverse_divide_cpu<int32_t>(int32_t a, ndarray b);
+template ndarray bland::cpu::reverse_divide_cpu<uint8_t>(uint8_t a, ndarray b);
+template ndarray bland::cpu::reverse_divide_cpu<uint32_t>(uint32_t a, ndarray b);
-- 
2.43.0


From f59f4992c01731d7dbe0cb0c142cc851bba78dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 06/98] fix: slice bounds: negative positions, uneven strides
 and invalid axes or strides

Negative positions were off by one, a stride that does not divide the length dropped the last element, a stride of
zero divided by zero and axes were not checked.
---
 bland/bland/ops/ops.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..619310c 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -165,15 +165,25 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     ndarray_slice sliced(a);
 
+    if (dim < 0 || dim >= a.ndim()) {
+        throw std::out_of_range("slice: dimension does not exist");
+    }
+    if (stride <= 0) {
+        throw std::invalid_argument("slice: stride must be positive");
+    }
+
     if (start < 0) {
-        // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
+        // Negative is an offset from the end (-1 is the last element)
+        start = a.size(dim) + start;
+        if (start < 0) {
+            throw std::out_of_range("slice: negative start reaches before the beginning");
+        }
     } else if (start > a.size(dim)) {
         throw std::out_of_range("Invalid start for stride (begins beyond the end)");
     }
     if (end < 0) {
-        // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        // Negative is an offset from the end (-1 is the last element)
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
@@ -188,7 +198,8 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    // A last partial stride still holds an element
+    sliced._tensor.shape[dim] = (end - start + stride - 1) / stride;
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From f33ea7d7c7d95affbdc0ed6a9e8a20f6e6e9f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 07/98] fix: reshape computes strides from how dimensions
 regroup

Strides of the old trailing dimensions were reused regardless of the new shape, so reshaping between multi-dimensional
shapes (or a strided view) addressed wrong elements and could read outside the array.
---
 bland/bland/ndarray.cpp | 77 +++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 829caf7..1353bec 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -596,36 +596,61 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         throw std::runtime_error(error_message);
     }
 
-    if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
-        int64_t new_ndim = new_shape.size();
-        // We can collapse all offsets to the last dimension
-        auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
-        _tensor._offsets   = new_offsets;
-
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
+    // Group old and new dimensions that hold the same elements. Within a group the old dimensions must be contiguous with
+    // respect to one another for the new strides to exist, otherwise the elements would have to be copied.
+    // Dimensions with one element never constrain the layout.
+    std::vector<int64_t> old_dims, old_strides;
+    for (int64_t axis = 0; axis < _tensor.ndim; ++axis) {
+        if (_tensor.shape[axis] != 1) {
+            old_dims.push_back(_tensor.shape[axis]);
+            old_strides.push_back(_tensor.strides[axis]);
+        }
+    }
+    const int64_t new_ndim    = new_shape.size();
+    auto          new_strides = std::vector<int64_t>(new_ndim, 0);
+    if (num_elements > 0) {
+        size_t  old_axis = 0;
+        int64_t new_axis = 0;
+        while (old_axis < old_dims.size()) {
+            size_t  old_end   = old_axis + 1;
+            int64_t new_end   = new_axis + 1;
+            int64_t old_count = old_dims[old_axis];
+            int64_t new_count = new_shape[new_axis];
+            while (old_count != new_count) {
+                if (new_count < old_count) {
+                    new_count *= new_shape[new_end++];
+                } else {
+                    old_count *= old_dims[old_end++];
+                }
             }
+            for (size_t axis = old_axis; axis + 1 < old_end; ++axis) {
+                if (old_strides[axis] != old_strides[axis + 1] * old_dims[axis + 1]) {
+                    throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+                }
+            }
+            int64_t stride = old_strides[old_end - 1];
+            for (int64_t axis = new_end - 1; axis >= new_axis; --axis) {
+                new_strides[axis] = stride;
+                stride *= new_shape[axis];
+            }
+            old_axis = old_end;
+            new_axis = new_end;
         }
-        _tensor._strides_ownership = new_strides;
-        _tensor.strides            = _tensor._strides_ownership.data();
-        _tensor.ndim               = new_ndim;
-    } else {
-        throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
     }
 
+    // We can collapse all offsets to the last dimension
+    auto new_offsets = std::vector<int64_t>(new_ndim, 0);
+    auto offset      = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
+    if (new_ndim > 0) {
+        new_offsets.back() = offset;
+    } else if (offset != 0) {
+        throw std::runtime_error("reshape: cannot reshape an offset view to zero dimensions");
+    }
+    _tensor._offsets           = new_offsets;
+    _tensor._strides_ownership = new_strides;
+    _tensor.strides            = _tensor._strides_ownership.data();
+    _tensor.ndim               = new_ndim;
+
     _tensor._shape_ownership = new_shape;
     _tensor.shape            = _tensor._shape_ownership.data();
 
-- 
2.43.0


From 73ac21d7d0a8833fed0a54e9bb58b02a481c8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 08/98] fix: squeeze keeps the offset of the squeezed dimension

Squeezing a one-element slice silently moved the view back to the start of that dimension.
---
 bland/bland/ndarray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 1353bec..467eaaa 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -695,6 +695,12 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    // The squeezed dimension may be what positions this view in its buffer
+    if (!new_offsets.empty()) {
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    } else if (_tensor._offsets[squeeze_axis] != 0) {
+        throw std::runtime_error("ndarray::squeeze cannot squeeze the only dimension of an offset view");
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From 294ffb625ab8650286c932f31f9edbef6121dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 09/98] fix: arange includes the last element below the end

The element count was truncated, so a step not dividing the range lost the last element (and a negative range asked for
a negative size).
---
 bland/bland/ops/creators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..069386d 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -4,6 +4,8 @@
 #include "bland/ndarray.hpp"
 #include "bland/ndarray_slice.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <random>
 #include <stdexcept>
 #include <type_traits>
@@ -12,7 +14,10 @@ using namespace bland;
 
 template <typename START_TYPE, typename END_TYPE, typename STEP_TYPE>
 ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType dtype, DLDevice device) {
-    auto number_steps  = static_cast<int64_t>((end - start) / step);
+    // The interval is half-open, so a last partial step still has an element
+    auto number_steps  = std::max<int64_t>(
+            0,
+            static_cast<int64_t>(std::ceil((static_cast<double>(end) - static_cast<double>(start)) / step)));
     auto aranged_array = ndarray({number_steps}, dtype, device);
 
     switch (dtype.code) {
-- 
2.43.0


From d9eefb805aebd481b0c5c6ba48562b08491cbfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 10/98] fix: linspace between integers

The step was computed in unsigned integer arithmetic, so it was truncated and wrong for descending ranges.
---
 bland/bland/ops/creators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 069386d..83018c9 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -224,7 +224,7 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    auto step          = (static_cast<double>(end) - static_cast<double>(start)) / number_steps;
 
     switch (dtype.code) {
     case kDLFloat: {
-- 
2.43.0


From 6c695326043099f2ae561f026a6b289966484bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 11/98] fix: masked statistics index the mask with the mask's
 own strides and offsets

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..72ac26a 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -181,7 +181,11 @@ struct masked_mean_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -425,7 +429,11 @@ struct masked_stddev_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -681,7 +689,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From cde1c54f05d2e870058940a9e0a70e4fd23326a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 12/98] fix: masked standard deviation of (nearly) constant
 data is not NaN

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 72ac26a..ccbcded 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -462,7 +462,7 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -723,7 +723,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From dc0f5615b59f3dae13fef69da3da9e41c44ad5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 13/98] fix: reductions of integer arrays accumulate without
 wrapping or truncating

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index ccbcded..c7f5efe 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -52,10 +52,8 @@ struct mean_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double; // integer accumulators wrap and truncate
 
-        accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
@@ -165,8 +163,7 @@ struct masked_mean_impl {
             throw std::runtime_error("mask_mean: dims of a shape does not match dims of mask shape");
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double; // integer accumulators wrap and truncate
 
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
@@ -280,8 +277,7 @@ struct stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double; // integer accumulators wrap and truncate
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -406,8 +402,7 @@ struct masked_stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double; // integer accumulators wrap and truncate
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -536,8 +531,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         reduced_elements *= a_shape[d];
     }
 
-    constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-    using accumulator_type           = std::conditional_t<is_floating_point, double, out_datatype>;
+    using accumulator_type           = double;
 
     // TODO (flexibility): add correction option (noff in torch)
     accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -666,8 +660,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double; // integer accumulators wrap and truncate
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -958,13 +951,15 @@ struct sum_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
+        using accumulator_type = std::conditional_t<std::is_floating_point<in_datatype>::value, double, int64_t>;
+
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
-            in_datatype total           = 0;
+            accumulator_type total      = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -989,7 +984,7 @@ struct sum_impl {
                 out_linear_index += out_offset[axis] + (out_index[axis]) * out_strides[axis];
             }
 
-            out_data[out_linear_index] = total;
+            out_data[out_linear_index] = static_cast<out_datatype>(total);
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 079c08d5b148c609095b1fda08e0cfcac7612623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 14/98] fix: var and masked_var into an output array leave the
 variance in it

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From b1d9846ded70c2d174dfbf053cfb5ec5f10ce831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 15/98] fix: mean_stddev respects the layout of the stddev
 output and dtypes other than float

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index c7f5efe..73df7ee 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -494,9 +494,17 @@ ndarray bland::cpu::masked_stddev(const ndarray &a, const ndarray &mask, ndarray
     return dispatch_new<masked_stddev_impl>(out, a, mask, reduced_axes);
 }
 
+static bool all_float32(const ndarray &a, const ndarray &out_mean, const ndarray &out_stddev) {
+    auto is_float32 = [](const ndarray &x) { return x.dtype().code == kDLFloat && x.dtype().bits == 32; };
+    return is_float32(a) && is_float32(out_mean) && is_float32(out_stddev);
+}
+
 std::pair<ndarray, ndarray>
 bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
     // Hard code to float for now...
+    if (!all_float32(a, out_mean, out_stddev)) {
+        return std::make_pair(cpu::mean(a, out_mean, reduced_axes), cpu::stddev(a, out_stddev, reduced_axes));
+    }
     using in_datatype  = float;
     using out_datatype = float;
 
@@ -575,8 +583,12 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
-        out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        int64_t out_stddev_linear_index = 0;
+        for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+            out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+        }
+        out_mean_data[out_linear_index]          = static_cast<out_datatype>(accum_x);
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -608,6 +620,9 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
 }
 
 std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, const ndarray &mask, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    if (!all_float32(a, out_mean, out_stddev)) {
+        return std::make_pair(cpu::masked_mean(a, mask, out_mean, reduced_axes), cpu::masked_stddev(a, mask, out_stddev, reduced_axes));
+    }
     using in_datatype = float;
     using out_datatype = float;
 
@@ -715,8 +730,12 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
+            int64_t out_stddev_linear_index = 0;
+            for (int axis = 0; axis < out_stddev_shape.size(); ++axis) {
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
+            }
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From d294b8a6329fd0edc31d41db355251ec1c9cb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 16/98] fix: reading a raw file rejects partial elements,
 directories and short reads

---
 bland/bland/ops/cpu/ops_cpu.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..63cf096 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -10,6 +10,7 @@
 
 #include "bland/ndarray.hpp"
 
+#include <filesystem>
 #include <fstream>
 
 
@@ -55,18 +56,32 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-    std::ifstream in_file(file_path.data(), std::ios::binary);
+    std::string path(file_path);
+    std::ifstream in_file(path, std::ios::binary);
     if (!in_file) {
         throw std::runtime_error("Could not open file for reading.");
     }
 
     // Get the number of bytes, create a buffer big enough, and read it all in
-    auto file_length_bytes = get_ifstream_file_length(in_file);
+    int64_t file_length_bytes = -1;
+    if (std::filesystem::is_regular_file(path)) { // other kinds do not have a meaningful length
+        file_length_bytes = get_ifstream_file_length(in_file);
+    }
+    if (file_length_bytes < 0 || !in_file) {
+        throw std::runtime_error("Could not determine the length of the file for reading.");
+    }
 
-    int64_t numel = file_length_bytes / (dtype.bits/8);
+    int64_t bytes_per_elem = dtype.bits / 8;
+    if (bytes_per_elem == 0 || file_length_bytes % bytes_per_elem != 0) {
+        throw std::runtime_error("The length of the file is not a whole number of elements.");
+    }
+    int64_t numel = file_length_bytes / bytes_per_elem;
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
     in_file.read(x_ptr, file_length_bytes);
+    if (in_file.gcount() != file_length_bytes) {
+        throw std::runtime_error("Could not read the whole file.");
+    }
 
     return x;
 }
-- 
2.43.0


From 37b2674a0c2abcdba2fa33daa8196315d2ffde6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 17/98] fix: writing a raw file reports failed writes and
 refuses non-float arrays

---
 bland/bland/ops/cpu/ops_cpu.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 63cf096..dade464 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -20,7 +20,10 @@ using namespace bland::cpu;
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
     using file_dtype = float;
     
-    std::ofstream out_file(file_path.data(), std::ios::binary);
+    if (x.dtype().code != kDLFloat || x.dtype().bits != 32) {
+        throw std::runtime_error("write_to_file: only float32 arrays can be written");
+    }
+    std::ofstream out_file(std::string(file_path), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
@@ -53,6 +56,9 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         }
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("write_to_file: could not write the whole array");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-- 
2.43.0


From 2c767a1eb5e039822551bfa727d4d9bfbc8c6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 18/98] fix: assigning an array borrowed from another framework
 keeps its data

---
 bland/bland/bland_tensor_internals.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..c8830d6 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -173,7 +173,7 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        this->data            = other.data; // not owned when this is a view from another framework
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0


From 3afa61cd37076f7bef48aaab2d7db418d7c1f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 19/98] fix: importing a DLPack tensor copies its shape and
 strides and honours byte_offset

---
 bland/bland/bland_tensor_internals.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index c8830d6..313b9d6 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,8 +30,16 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    if (other_tensor.dl_tensor.strides == nullptr) {
+        // dlpack uses null strides for compact row-major tensors
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.ndim, 1);
+        for (int32_t dim = other_tensor.dl_tensor.ndim - 2; dim >= 0; --dim) {
+            _strides_ownership[dim] = _strides_ownership[dim + 1] * _shape_ownership[dim + 1];
+        }
+    } else {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    }
     DLTensor::strides  = _strides_ownership.data();
 
     // dlpack can't support offsets, so they must be 0
@@ -39,9 +47,8 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
+    DLTensor::data    = static_cast<char *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
+    DLTensor::byte_offset = 0;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From 933eb2ef495ead866fbb547c3db93f40d82f6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 20/98] fix: exported DLPack tensors describe the offset of
 views

---
 bland/bland/bland_tensor_internals.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 313b9d6..d7061e3 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -201,22 +201,6 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
-
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
     DLManagedTensor *tensor = new DLManagedTensor;
@@ -226,6 +210,9 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
     // Dynamically allocate a new blandDLTensor to co-own underlying data
     auto context_owner  = new blandDLTensor(*this);
     tensor->dl_tensor   = *context_owner;
+    // dlpack has no offset per dim, together they are a distance from the start of data
+    tensor->dl_tensor.byte_offset +=
+            std::accumulate(_offsets.begin(), _offsets.end(), int64_t{0}) * (DLTensor::dtype.bits / 8);
     tensor->manager_ctx = context_owner;
 
     tensor->deleter = [](DLManagedTensor *self) {
-- 
2.43.0


From f87a01a766a9f22b3811b2f35fe321d40be18fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 21/98] fix: the deleter of an exported DLPack tensor frees the
 tensor itself

---
 bland/bland/bland_tensor_internals.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index d7061e3..be36e00 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -220,6 +220,7 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
         // we need to check the refcounts before just deleting I think
         auto context = static_cast<blandDLTensor *>(self->manager_ctx);
         delete context;
+        delete self;
     };
     return tensor;
 }
-- 
2.43.0


From d94d35536a977cbd802b2da09d33efcf3177b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 22/98] fix: scalarize of a one-element view reads that element

---
 bland/bland/ndarray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 467eaaa..c98932d 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -221,7 +221,8 @@ T bland::ndarray::scalarize() const {
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    auto offsets = cpu_copy.offsets();
+    return cpu_copy.data_ptr<T>()[std::accumulate(offsets.begin(), offsets.end(), int64_t{0})];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From 640e14a7ec0908d14a9f1a478e79a4c188e4a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 23/98] fix: the coarse channel one past the end and channels
 missing from memory are refused

---
 bliss/core/scan.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..30971b6 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,12 +212,15 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
     auto global_offset_in_file = coarse_channel_index + _coarse_channel_offset;
     if (_coarse_channels.find(global_offset_in_file) == _coarse_channels.end()) {
+        if (_h5_file_handle == nullptr) {
+            throw std::out_of_range("ERROR: coarse channel is not in this scan and there is no file to read it from");
+        }
         // This is expected to be [time, feed, freq]
         auto data_count = _h5_file_handle->get_data_shape();
         std::vector<int64_t> data_offset(3, 0);
@@ -272,7 +275,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From c9d3c87b7cdedbd2fd8e517b99b3c7fd196cf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 24/98] fix: inferring the channelization of narrow files
 divided by zero

---
 bliss/core/scan.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 30971b6..eb0997b 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -69,9 +69,10 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse =
+                number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
-        if (fine_per_coarse * number_coarse == number_fine_channels) {
+        if (number_coarse > 0 && fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
                     "Rounding from 2**18 fine channels per coarse to give {} coarse channels with {} fine channels each\n",
                     number_fine_channels, number_coarse, fine_per_coarse);
@@ -83,9 +84,10 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse =
+                number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
-        if (fine_per_coarse * number_coarse == number_fine_channels) {
+        if (number_coarse > 0 && fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
                     "Rounding from 1M fine channels per coarse to give {} coarse channels with {} fine channels each\n",
                     number_fine_channels, number_coarse, fine_per_coarse);
-- 
2.43.0


From 9956b98ede925358f53925b296ac21d9cc7a2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 25/98] fix: frequency lookup counts whole coarse channels and
 refuses frequencies outside the scan

---
 bliss/core/scan.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index eb0997b..b2a7a63 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -8,6 +8,8 @@
 #include "fmt/ranges.h"
 
 #include <array>
+#include <cmath>
+#include <stdexcept>
 #include <tuple>
 
 
@@ -104,6 +106,7 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _coarse_channels = coarse_channels;
     // Grab the first coarse channel
     auto first_cc = _coarse_channels.at(0);
+    _fine_channels_per_coarse = first_cc->nchans();
 
     // Use it to initialize a bunch of metadata
     _num_coarse_channels = _coarse_channels.size();
@@ -300,10 +303,11 @@ void bliss::scan::add_coarse_channel_transform(std::function<coarse_channel(coar
 }
 
 int bliss::scan::get_coarse_channel_with_frequency(double frequency) const {
-    auto band_fraction = ((frequency - _fch1) / _foff / static_cast<double>(_nchans));
-    // TODO: if band_fraction is < 0 or > 1 then it's not in this filterbank. Throw an error
-    auto fractional_channel = band_fraction * _num_coarse_channels;
-    return std::floor(fractional_channel);
+    auto fractional_channel = std::floor((frequency - _fch1) / _foff / static_cast<double>(_fine_channels_per_coarse));
+    if (!(fractional_channel >= 0 && fractional_channel < _num_coarse_channels)) {
+        throw std::out_of_range("ERROR: frequency is not in this scan");
+    }
+    return static_cast<int>(fractional_channel);
 }
 
 int bliss::scan::get_number_coarse_channels() const {
-- 
2.43.0


From b61730724b69fe0a285ab3b43b785a377b14a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 26/98] fix: a scan built from coarse channels takes over all
 their metadata

---
 bliss/core/scan.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index b2a7a63..07eec43 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -112,6 +112,15 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _num_coarse_channels = _coarse_channels.size();
     _foff = first_cc->foff();
     _fch1 = first_cc->fch1();
+    _machine_id = first_cc->_machine_id;
+    _nbits = first_cc->_nbits.value_or(32);
+    _nifs = first_cc->nifs();
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
+    _data_type = first_cc->data_type();
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
     _nchans = first_cc->nchans() * _num_coarse_channels;
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
-- 
2.43.0


From 9621a870eabe5746bd2a42ed1e40b5ac6a68bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 27/98] fix: slices reaching outside of a scan are refused

---
 bliss/core/scan.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 07eec43..4ffd95f 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -382,13 +382,17 @@ void bliss::scan::push_device() {
 
 bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t count) {
     if (count == -1) {
-        fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({})\n", get_number_coarse_channels(), get_number_coarse_channels() - start_channel);
+        fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({})\n", get_number_coarse_channels() - start_channel);
         count = get_number_coarse_channels() - start_channel;
     }
 
+    if (start_channel < 0 || count < 0 || start_channel > _num_coarse_channels ||
+        count > _num_coarse_channels - start_channel) {
+        throw std::out_of_range("ERROR: slice of coarse channels is not inside the scan");
+    }
+
     auto sliced_scan = *this;
 
-    // what are implications of negative numbers here?
     sliced_scan._coarse_channel_offset += start_channel;
     sliced_scan._num_coarse_channels = count;
 
-- 
2.43.0


From f941e442f0b395518919313e1eca829054d09d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 28/98] fix: slicing a target keeps its name and device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..dfd4d3c 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,8 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
@@ -181,6 +183,7 @@ int bliss::cadence::get_number_coarse_channels() {
 
 bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int64_t count) {
     cadence cadence_coarse_channel;
+    cadence_coarse_channel._device = _device;
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
-- 
2.43.0


From 90ab6951b59613848f8cb62bfb974191cafc5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 29/98] fix: scan consistency accepts matching scans and
 refuses differing ones

---
 bliss/core/cadence.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index dfd4d3c..fd11a1c 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -49,18 +49,20 @@ bool bliss::observation_target::validate_scan_consistency() {
     // * have the same fch1
     // * have the same foff
 
-    double fch1;
-    double foff;
-    int nchans;
+    double  fch1   = 0;
+    double  foff   = 0;
+    int64_t nchans = 0;
+    int     ncoarse = 0;
     if (!_scans.empty()) {
         fch1 = _scans[0].fch1();
         foff = _scans[0].foff();
         nchans = _scans[0].nchans();
+        ncoarse = _scans[0].get_number_coarse_channels();
     }
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if (!(std::abs(sc.fch1() - fch1) < 1e-6) || !(std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans) || sc.get_number_coarse_channels() != ncoarse) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -70,7 +72,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -79,7 +81,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
@@ -133,14 +135,16 @@ bool bliss::cadence::validate_scan_consistency() {
     // * have the same number of coarse channels
     // * have the same fch1
 
-    double fch1;
-    double foff;
-    int nchans;
+    double  fch1   = 0;
+    double  foff   = 0;
+    int64_t nchans = 0;
+    int     ncoarse = 0;
     bool found_valid_scan = false;
     for (auto &obs: _observations) {
         if (!obs._scans.empty()) {
             fch1 = obs._scans[0].fch1();
             nchans = obs._scans[0].nchans();
+            ncoarse = obs._scans[0].get_number_coarse_channels();
             foff = obs._scans[0].foff();
             found_valid_scan = true;
             break;
@@ -148,7 +152,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if (!(std::abs(sc.fch1() - fch1) < 1e-6) || !(std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans || sc.get_number_coarse_channels() != ncoarse) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From daf058697b4fb7be37aeee014157a16f9064fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 30/98] fix: numeric attributes of any width and byte order are
 converted exactly or refused

---
 bliss/file_types/h5_filterbank_file.cpp | 107 ++++++++++--------------
 1 file changed, 46 insertions(+), 61 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..7c2006c 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,82 +5,67 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <bland/bland.hpp>
+#include <cmath>
+#include <cstdint>
 #include <iostream> // cerr
+#include <limits>
+#include <type_traits>
 #include <vector>
 
 using namespace bliss;
 
-constexpr bool pedantic = false;
+// Convert a value read from a file to the requested type, or refuse if the type cannot represent it
+template <typename T, typename S>
+static T checked_attr_cast(S val, const std::string &key) {
+    if constexpr (std::is_floating_point_v<T>) {
+        return static_cast<T>(val);
+    } else {
+        bool fits;
+        if constexpr (std::is_floating_point_v<S>) {
+            // the limits are powers of two, which S represents exactly
+            const auto upper = std::ldexp(S(1), std::numeric_limits<T>::digits);
+            const auto lower = std::is_signed_v<T> ? -upper : S(0);
+            fits             = val >= lower && val < upper && std::trunc(val) == val;
+        } else if constexpr (std::is_signed_v<S>) {
+            fits = val < 0 ? std::is_signed_v<T> && val >= static_cast<int64_t>(std::numeric_limits<T>::min())
+                           : static_cast<uint64_t>(val) <= static_cast<uint64_t>(std::numeric_limits<T>::max());
+        } else {
+            fits = val <= static_cast<uint64_t>(std::numeric_limits<T>::max());
+        }
+        if (!fits) {
+            throw std::invalid_argument(fmt::format("attribute {} does not fit the requested type", key));
+        }
+        return static_cast<T>(val);
+    }
+}
 
 // Default implementation for reading data_attr
 template <typename T>
 T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
-    T val;
     if (_h5_data_handle.attrExists(key)) {
         auto attr  = _h5_data_handle.openAttribute(key);
         auto dtype = attr.getDataType();
+        if (attr.getSpace().getSimpleExtentNpoints() != 1) {
+            throw std::invalid_argument(fmt::format("attribute {} is not a single value", key));
+        }
 
-        // Check the data type and perform the appropriate casting
-        if (dtype == H5::PredType::NATIVE_INT16) {
-            if constexpr (pedantic && !std::is_same_v<int16_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_INT16 in file\n", key, typeid(T).name());
-            }
-            int16_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        } else if (dtype == H5::PredType::NATIVE_UINT16) {
-            if constexpr (pedantic && !std::is_same_v<uint16_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT16 in file\n", key, typeid(T).name());
-            }
-            uint16_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        } else if (dtype == H5::PredType::NATIVE_INT32) {
-            if constexpr (pedantic && !std::is_same_v<int32_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_INT32 in file\n", key, typeid(T).name());
-            }
-            int32_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        } else if (dtype == H5::PredType::NATIVE_UINT32) {
-            if constexpr (pedantic && !std::is_same_v<uint32_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT32 in file\n", key, typeid(T).name());
-            }
-            uint32_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        }  else if (dtype == H5::PredType::NATIVE_INT64) {
-            if constexpr (pedantic && !std::is_same_v<int64_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_INT64 in file\n", key, typeid(T).name());
-            }
-            int64_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        }  else if (dtype == H5::PredType::NATIVE_UINT64) {
-            if constexpr (pedantic && !std::is_same_v<uint64_t, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT64 in file\n", key, typeid(T).name());
-            }
-            uint64_t val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        }  else if (dtype == H5::PredType::NATIVE_FLOAT) {
-            if constexpr (pedantic && !std::is_same_v<float, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_FLOAT in file\n", key, typeid(T).name());
-            }
-            float val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
-        }  else if (dtype == H5::PredType::NATIVE_DOUBLE) {
-            if constexpr (pedantic && !std::is_same_v<double, T>) {
-                fmt::print("WARN: attr {} requested as {} but is NATIVE_DOUBLE in file\n", key, typeid(T).name());
-            }
+        // hdf5 converts from whichever width and byte order is in the file to the widest native type of the same kind
+        if (dtype.getClass() == H5T_FLOAT && dtype.getSize() <= sizeof(double)) {
             double val;
-            attr.read(dtype, &val);
-            return static_cast<T>(val);
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return checked_attr_cast<T>(val, key);
+        } else if (dtype.getClass() == H5T_INTEGER && dtype.getSize() <= sizeof(int64_t)) {
+            if (H5Tget_sign(dtype.getId()) == H5T_SGN_NONE) {
+                uint64_t val;
+                attr.read(H5::PredType::NATIVE_UINT64, &val);
+                return checked_attr_cast<T>(val, key);
+            } else {
+                int64_t val;
+                attr.read(H5::PredType::NATIVE_INT64, &val);
+                return checked_attr_cast<T>(val, key);
+            }
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            throw std::invalid_argument(fmt::format("attribute {} does not have a supported numeric type", key));
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From d3d000bc5b23c104d04af390bf72b397e9a498f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 31/98] fix: string attributes are read by their storage kind,
 width and count

---
 bliss/file_types/h5_filterbank_file.cpp       | 104 ++++++++++--------
 .../include/file_types/h5_filterbank_file.hpp |   3 +
 2 files changed, 64 insertions(+), 43 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 7c2006c..59d8961 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -4,6 +4,7 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 #include <fmt/ranges.h>
+#include <algorithm>
 #include <bland/bland.hpp>
 #include <cmath>
 #include <cstdint>
@@ -86,62 +87,79 @@ template int32_t     bliss::h5_filterbank_file::read_data_attr<int32_t>(const st
 template int64_t     bliss::h5_filterbank_file::read_data_attr<int64_t>(const std::string &key);
 // template std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::string &key);
 
+// Read every string of an attribute, whether they are stored as fixed or variable length
+static std::vector<std::string> read_string_attr(const H5::Attribute &attr, const std::string &key) {
+    auto dtype = attr.getDataType();
+    if (dtype.getClass() != H5T_STRING) {
+        throw std::invalid_argument(fmt::format("{} expected as string but is not a string type", key));
+    }
+    auto                     space  = attr.getSpace();
+    const auto               points = space.getSimpleExtentNpoints();
+    std::vector<std::string> vals;
+    if (points < 1) {
+        return vals;
+    }
+    if (dtype.isVariableStr()) {
+        // hdf5 will allocate space for each string
+        std::vector<char *> raw(points, nullptr);
+        attr.read(dtype, raw.data());
+        for (auto str : raw) {
+            vals.emplace_back(str == nullptr ? "" : str);
+        }
+        H5Dvlen_reclaim(dtype.getId(), space.getId(), H5P_DEFAULT, raw.data());
+    } else {
+        // ATA pipeline emits fixed-length bytestrings for the source_name
+        const size_t      width = dtype.getSize();
+        std::vector<char> raw(points * width);
+        attr.read(dtype, raw.data());
+        const bool space_padded = H5Tget_strpad(dtype.getId()) == H5T_STR_SPACEPAD;
+        for (hssize_t ii = 0; ii < points; ++ii) {
+            std::string str(raw.data() + ii * width, width);
+            if (space_padded) {
+                str.erase(str.find_last_not_of(' ') + 1);
+            } else {
+                str.erase(std::min(str.find('\0'), str.size()));
+            }
+            vals.push_back(str);
+        }
+    }
+    return vals;
+}
+
+static std::string read_single_string_attr(const H5::Attribute &attr, const std::string &key) {
+    auto vals = read_string_attr(attr, key);
+    if (vals.size() != 1) {
+        throw std::invalid_argument(fmt::format("attribute {} is not a single string", key));
+    }
+    return vals[0];
+}
+
 // Specialization for reading (byte) strings
 template <>
 std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
-        auto attr  = _h5_data_handle.openAttribute(key);
-        auto dtype = attr.getDataType();
-
-        // Check if the attribute is a byte string
-        if (dtype.getClass() == H5T_STRING && !dtype.isVariableStr()) {
-            // ATA pipeline emits fixed-length bytestrings for the source_name
-            hsize_t size = attr.getInMemDataSize();
-            std::vector<uint8_t> val(size);
-            attr.read(dtype, val.data());
-
-            // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
-        } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
-            // Some pipelines generate variable length bytestrings
-            char* val;
-            // hdf5 will allocate space for val
-            attr.read(dtype, &val);
-
-            std::string result(val);
-
-            // Free the memory allocated by HDF5
-            #if H5_VERSION_GE(1, 8, 13)
-            H5free_memory(val);
-            #else
-            free(val);
-            #endif
-
-            return result;
-        } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
-            throw std::invalid_argument(err_msg);
-        }
+        return read_single_string_attr(_h5_data_handle.openAttribute(key), key);
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
         throw std::invalid_argument(err_msg);
     }
 }
 
+template <>
+std::string bliss::h5_filterbank_file::read_file_attr<std::string>(const std::string &key) {
+    if (_h5_file_handle.attrExists(key)) {
+        return read_single_string_attr(_h5_file_handle.openAttribute(key), key);
+    } else {
+        auto err_msg = fmt::format("H5 file does not have an attribute key '{}'\n", key);
+        throw std::invalid_argument(err_msg);
+    }
+}
+
 // Specialized for vector<string>
 template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
-        H5::Attribute             attr = _h5_data_handle.openAttribute(key);
-        std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
-        attr.read(attr.getDataType(), vals_as_read_from_h5.data());
-
-        std::vector<std::string> vals;
-        for (size_t i = 0; i < vals_as_read_from_h5.size(); ++i) {
-            vals.emplace_back(vals_as_read_from_h5[i]);
-        }
-
-        return vals;
+        return read_string_attr(_h5_data_handle.openAttribute(key), key);
     } else {
         throw std::invalid_argument("H5 data does not have an attribute key");
     }
@@ -164,7 +182,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
     fmt::print("INFO: HDF5 looking for filter plugins in: \n{}", filter_paths);
     #endif
 
-    _h5_file_handle = H5::H5File(file_path.data(), H5F_ACC_RDONLY);
+    _h5_file_handle = H5::H5File(std::string(file_path), H5F_ACC_RDONLY);
     try {
         _h5_data_handle = _h5_file_handle.openDataSet("data");
     } catch (H5::FileIException h5_data_exception) {
diff --git a/bliss/file_types/include/file_types/h5_filterbank_file.hpp b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
index 893eb30..a2d8022 100644
--- a/bliss/file_types/include/file_types/h5_filterbank_file.hpp
+++ b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
@@ -96,4 +96,7 @@ T bliss::h5_filterbank_file::read_file_attr(const std::string &key) {
     }
 }
 
+template <>
+std::string bliss::h5_filterbank_file::read_file_attr<std::string>(const std::string &key);
+
 } // namespace bliss
\ No newline at end of file
-- 
2.43.0


From c9d534e1795bd3da01395f31aed8fe7a1d75c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 32/98] fix: datasets that are not ordered time, feed_id,
 frequency are refused

---
 bliss/file_types/h5_filterbank_file.cpp | 44 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 59d8961..26925ed 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -241,6 +241,14 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     dataspace.getSimpleExtentDims(dims.data());
 
     auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+    if (dims.size() != 3 || dim_labels.size() != dims.size()) {
+        throw std::invalid_argument("Expected the data to have 3 labelled dimensions");
+    }
+    for (auto dim : dims) {
+        if (dim == 0) {
+            throw std::invalid_argument("Expected the data to have no empty dimension");
+        }
+    }
     // tuples of size, initialized state, index. This will validate the dimensions
     // fit our expectations:
     // * there are 3 dimensions with unique labels of time, feed_id, frequency
@@ -258,16 +266,8 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             if (dims[ii] != 1) {
                 throw std::invalid_argument("Expected unity feed_id");
             }
-        } else { // if there are more than 3 dims this will catch it
-            // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
-                // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
-                // "logging" lib?
-                std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
-                          << ". Continuing since it is size 1." << std::endl;
-            } else {
-                throw std::invalid_argument("Unknown dimension of non-unity size in data");
-            }
+        } else {
+            throw std::invalid_argument("Unknown dimension in data");
         }
     }
     if (std::get<1>(time_steps) == false) {
@@ -279,7 +279,8 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     if (std::get<1>(freq_bins) == false) {
         throw std::invalid_argument("Could not find a frequency dimension in dimension labels");
     }
-    if (std::get<0>(time_steps) == read_data_attr<int64_t>("nchans") && std::get<0>(freq_bins) != read_data_attr<int64_t>("nchans")) {
+    const auto nchans = read_data_attr<int64_t>("nchans");
+    if (std::get<0>(time_steps) == nchans && std::get<0>(freq_bins) != nchans) {
         static bool warning_issued = false;
         if (!warning_issued) {
             fmt::print("WARN h5_filterbank_file: the DIMENSION_LABELS appear out of order, time dimension matches nchans\n");
@@ -290,6 +291,12 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
         freq_bins            = time_steps;
         time_steps           = temp_time_steps;
     }
+    if (std::get<2>(time_steps) != 0 || std::get<2>(feed_id) != 1 || std::get<2>(freq_bins) != 2) {
+        throw std::invalid_argument("Expected the data to be ordered as time, feed_id, frequency");
+    }
+    if (std::get<0>(freq_bins) < nchans) {
+        throw std::invalid_argument("Expected the data to hold nchans frequency bins");
+    }
 
     auto shape = std::vector<int64_t>({std::get<0>(time_steps), std::get<0>(feed_id), std::get<0>(freq_bins)});
     return shape;
@@ -309,14 +316,21 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
     }
     if (count.empty()) {
         count = shape;
-        count[0] -= offset[0];
-        count[1] -= offset[1];
-        count[2] -= offset[2];
+        for (size_t dim = 0; dim < shape.size() && dim < offset.size(); ++dim) {
+            count[dim] -= offset[dim];
+        }
+    }
+    if (offset.size() != shape.size() || count.size() != shape.size()) {
+        throw std::invalid_argument("read_data: offset and count must have one entry per dimension");
+    }
+    for (size_t dim = 0; dim < shape.size(); ++dim) {
+        if (offset[dim] < 0 || count[dim] < 1 || offset[dim] > shape[dim] || count[dim] > shape[dim] - offset[dim]) {
+            throw std::out_of_range("read_data: requested data is not inside the file");
+        }
     }
     // TODO: if we have cuda we should put this in unified memory since we *know* we'll move it to device
     // and it needs to pass through there anyway
     spectrum_grid = bland::ndarray(count, bland::ndarray::datatype::float32, bland::ndarray::dev::cpu);
-    // TODO: validate both offset and count are size 3
 
     std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
     std::vector<hsize_t> count_hsize(count.begin(), count.end());
-- 
2.43.0


From 3c6555a95f2d7bdb36637c116c56b68fcd407431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 33/98] fix: nbits and nifs missing from a file are derived and
 channel counts below one refused

---
 bliss/core/scan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 4ffd95f..796f4ca 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -185,18 +185,21 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
     // int64_t     nchans;
     try {
         _nchans = fb_file.read_data_attr<int64_t>("nchans");
     } catch (std::invalid_argument &e) {
         // nchans is not specified, derive from datashape
+        _nchans = _h5_file_handle->get_data_shape()[2];
     }
     // int64_t     nifs;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
+        _nifs = _h5_file_handle->get_data_shape()[1];
     }
 
     // This is expected to be [time, feed, freq]
@@ -208,6 +211,9 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         fmt::print("ERROR: reading data_shape from HDF5 did not have 3 dimensions but we expect [time, feed, freq]\n");
     }
 
+    if (_nchans < 1 || num_fine_channels_per_coarse < 0) {
+        throw std::invalid_argument("ERROR: scan expects a positive number of channels");
+    }
     if (num_fine_channels_per_coarse == 0) {
         // Find the number of coarse channels
         std::tie(_num_coarse_channels, _fine_channels_per_coarse) =
-- 
2.43.0


From ed69ae139035c7a38a7ed7101b90b1263f8f0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 34/98] fix: reading a rolloff mask no longer changes the mask
 it was derived from

---
 bliss/flaggers/filter_rolloff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..a9813ab 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -12,7 +12,7 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        bland::ndarray rfi_flags = bland::copy(mask);
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-- 
2.43.0


From 81396565df40cb96c595182d38dd51da2cd3fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 35/98] fix: flags already set are kept instead of carrying
 into other flags

---
 bliss/flaggers/filter_rolloff.cpp    | 13 +++++++++++--
 bliss/flaggers/magnitude.cpp         |  2 +-
 bliss/flaggers/sigmaclip.cpp         |  2 +-
 bliss/flaggers/spectral_kurtosis.cpp |  2 +-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index a9813ab..5fd9494 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -7,6 +7,9 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <algorithm> // std::clamp
+#include <cmath>     // std::round
+
 using namespace bliss;
 
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
@@ -16,8 +19,14 @@ coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
+        one_sided_channels         = std::clamp<int64_t>(one_sided_channels, 0, nchans);
+        if (one_sided_channels > 0) {
+            constexpr auto flag  = static_cast<uint8_t>(flag_values::filter_rolloff);
+            auto           lower = bland::slice(rfi_flags, {1, 0, one_sided_channels});
+            bland::slice(rfi_flags, {1, 0, one_sided_channels}) = lower + flag - (lower & flag);
+            auto upper = bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans});
+            bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans}) = upper + flag - (upper & flag);
+        }
         return rfi_flags;
     });
     
diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..80c1289 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -20,7 +20,7 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    mask = mask + magnitude_mask - (mask & magnitude_mask);
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..f202eb8 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -39,7 +39,7 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = rfi_flags + rfi - (rfi_flags & rfi); // a | operator would be more appropriate
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..3fcdaf7 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -36,7 +36,7 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = rfi_flags + rfi - (rfi_flags & rfi); // a | operator would be more appropriate
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
-- 
2.43.0


From fc3fad41a3eab2e8b1c5e4bb83174b0b350d5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 36/98] fix: sigma clipping starts from a mask of flags, not of
 the data's type

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index f202eb8..40affee 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From e59283e3980133c9570ad930f38b36f69e5e8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 37/98] fix: magnitude flags requested of a scan reach its
 channels

---
 bliss/flaggers/magnitude.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 80c1289..9d80a40 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,12 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) { return flag_magnitude(cc, threshold); });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) { return flag_magnitude(cc); });
     return fil_data;
 }
 
-- 
2.43.0


From 487b9054c496acfd30a5af77f506ea8dce7dce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 38/98] fix: equalization requested of a scan reaches its
 channels

---
 bliss/preprocess/passband_static_equalize.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From 4c6348fe58da2abe443da30502eac44505fb72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 39/98] fix: fft_shift_mag_square of even lengths wrote past
 its output and ignored strides

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp    | 14 +++++++++++++-
 bliss/preprocess/passband_static_equalize.cpp |  4 +---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..da16207 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -3,11 +3,15 @@
 #include "internal/dispatcher.hpp"
 
 #include "bland/ndarray.hpp"
+#include "bland/ops/ops.hpp"
 
 #include <fftw3.h>
 
 #include <fmt/format.h>
 
+#include <limits>
+#include <stdexcept>
+
 using namespace bland;
 using namespace bland::cpu;
 
@@ -19,7 +23,13 @@ ndarray bland::cpu::fft(ndarray x, ndarray &out) {
 
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     auto shape = x.shape();
+    if (shape.size() != 1 || shape[0] < 1 || shape[0] > std::numeric_limits<int>::max()) {
+        throw std::runtime_error("fft_shift_mag_square: expected one dimension that fits a plan");
+    }
     int N = shape[0];
+    if (x.strides()[0] != 1 || x.offsets()[0] != 0) {
+        x = bland::copy(x); // the plan reads consecutive elements
+    }
     int half_N = floor(N/2) + 1;
 
     auto in_ptr = x.data_ptr<float>();
@@ -38,7 +48,9 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        if (shift_index < N) { // an even N has no positive nyquist
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 3b9e8dc..28368be 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -72,9 +72,7 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
     auto h = firdes(num_taps, 1.0f/static_cast<float>(num_coarse_channels), window);
 
     // Zero-pad to full rate (need to know the number of coarse channels in original recording)
-    int total_fine_channels = num_coarse_channels * fine_per_coarse;
-
-    int64_t full_res_length = static_cast<int64_t>(num_coarse_channels * fine_per_coarse);
+    int64_t full_res_length = static_cast<int64_t>(num_coarse_channels) * fine_per_coarse;
     auto h_padded = bland::zeros({full_res_length});
 
     h_padded.slice(bland::slice_spec{0, 0, h.size(0)}) = h;
-- 
2.43.0


From f24a13efb1d64596e83dd259e44cd6a1864486cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 40/98] fix: the unimplemented cpu fft is an exception instead
 of uninitialized values

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index da16207..5f3da2b 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -17,8 +17,7 @@ using namespace bland::cpu;
 
 
 ndarray bland::cpu::fft(ndarray x, ndarray &out) {
-    fmt::print("WARN: cpu fft not implemented yet\n");
-    return out;
+    throw std::runtime_error("cpu fft not implemented yet");
 }
 
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
-- 
2.43.0


From bd98cf4ac6870e5b2d1e32d6c6adc2e16ca358f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 41/98] fix: the unimplemented mad noise estimator is an
 exception instead of an empty estimate

---
 bliss/estimators/noise_estimate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/estimators/noise_estimate.cpp b/bliss/estimators/noise_estimate.cpp
index 55dc1e0..98ab856 100644
--- a/bliss/estimators/noise_estimate.cpp
+++ b/bliss/estimators/noise_estimate.cpp
@@ -42,6 +42,7 @@ noise_stats noise_power_estimate_stddev(bland::ndarray x, bland::ndarray mask) {
  * Compute noise power using the Median Absolute Deviation (MAD) over the population
  */
 noise_stats noise_power_estimate_mad(const bland::ndarray &x) {
+    throw std::runtime_error("noise power estimation with mad is not implemented yet");
     noise_stats estimated_stats;
 
     // TODO: do medians right (TM)
-- 
2.43.0


From 15068ee3fbbfdef235488c98ae2949a15200f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 42/98] fix: spectral kurtosis of long observations overflowed
 its integration count

---
 bliss/estimators/spectral_kurtosis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/estimators/spectral_kurtosis.cpp b/bliss/estimators/spectral_kurtosis.cpp
index f87834a..d6749c2 100644
--- a/bliss/estimators/spectral_kurtosis.cpp
+++ b/bliss/estimators/spectral_kurtosis.cpp
@@ -10,7 +10,7 @@ bland::ndarray bliss::estimate_spectral_kurtosis(const bland::ndarray &spectrum_
     // fmt::print("INFO: spec kurtosis with M={}, N={}, d={}\n", M, N, d);
     auto s1 = bland::square(bland::sum(spectrum_grid, {0}));
     auto s2 = bland::sum(bland::square(spectrum_grid), {0});
-    auto sk = ((M * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
+    auto sk = ((static_cast<float>(M) * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
     return sk;
 }
 
-- 
2.43.0


From 2b4d686603ac4bd1f4fa92d0ec28e73ee8a769d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 43/98] fix: a local maximum candidate no longer competes
 against itself

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..c2b3798 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // the candidate is not its own neighbor
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From b37a974fdb7b43c5deeea216c54885c9498ee7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 44/98] fix: drifts wider than the channel integrated out of
 bounds

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..080eabd 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -67,8 +67,8 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
 
                     int64_t spectrum_freq_slice_start  = channel_offset;
                     int64_t spectrum_freq_slice_end    = number_channels;
-                    if (spectrum_freq_slice_start > spectrum_shape[1]) {
-                        fmt::print("ERROR: drift integration might be going out of bounds. Report this condition");
+                    if (spectrum_freq_slice_start >= spectrum_freq_slice_end) {
+                        continue; // the drift has left the channel at this step
                     }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
@@ -119,6 +119,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        continue; // the drift has left the channel at this step
+                    }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
                     size_t drift_plane_index =
-- 
2.43.0


From 4859eb2a2223b3deb80bbde45d62fdb45d43d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 45/98] fix: flag counts along a drift saturate instead of
 wrapping to zero

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 080eabd..d707e15 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -86,15 +86,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                lowsk_rfi_ptr[lowsk_index] += lowsk_rfi_ptr[lowsk_index] < 255;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                highsk_rfi_ptr[highsk_index] += highsk_rfi_ptr[highsk_index] < 255;
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                rolloff_rfi_ptr[filtrolloff_index] += rolloff_rfi_ptr[filtrolloff_index] < 255;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
@@ -138,15 +138,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                lowsk_rfi_ptr[lowsk_index] += lowsk_rfi_ptr[lowsk_index] < 255;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                highsk_rfi_ptr[highsk_index] += highsk_rfi_ptr[highsk_index] < 255;
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                rolloff_rfi_ptr[filtrolloff_index] += rolloff_rfi_ptr[filtrolloff_index] < 255;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
-- 
2.43.0


From 2159eb3e513d0afc70af2085db091e532761aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 46/98] fix: the flag counts of a component are those of its
 maximum

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From dbf728cc40dea37d1d498d7e094ccf3b2298ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 47/98] fix: hits carry the number of time steps they span

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..8463db5 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -29,6 +29,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         hit this_hit;
         this_hit.rate_index       = c.index_max.drift_index;
         this_hit.rfi_counts       = c.rfi_counts;
+        this_hit.time_span_steps  = integration_length;
         this_hit.start_freq_index = c.index_max.frequency_channel;
 
         // Start frequency in Hz is bin * Hz/bin
-- 
2.43.0


From 0d04112212bc555e5482ef5245a90e2a7aa4eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 48/98] fix: drift ranges that cannot be integrated are refused
 and the last partial step is searched

---
 bliss/drift_search/integrate_drifts.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 9cc63db..39d7e00 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,13 +11,21 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <stdexcept>
+
 using namespace bliss;
 
 std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, double foff, double tsamp, integrate_drifts_options options) {
+    if (options.rate_step_size <= 0 || options.high_rate <= options.low_rate) {
+        throw std::invalid_argument("integrate_drifts: the drift range is empty or its step is not positive");
+    }
+    if (time_steps < 2) {
+        throw std::invalid_argument("integrate_drifts: a drift needs at least two time steps");
+    }
     auto maximum_drift_span = time_steps - 1;
 
     // Convert the drift options to specific drift info
-    auto number_drifts = (options.high_rate - options.low_rate) / options.rate_step_size;
+    auto number_drifts = (options.high_rate - options.low_rate - 1) / options.rate_step_size + 1;
     std::vector<frequency_drift_plane::drift_rate> drift_rate_info;
     drift_rate_info.reserve(number_drifts);
     for (int drift_index = 0; drift_index < number_drifts; ++drift_index) {
-- 
2.43.0


From 3adf7807cbfb17391308cb09a15d6c579c8f767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 49/98] fix: the distance of two hits uses the duration of both

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From 36ef18410247859702301da48fd9399f666986af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 50/98] fix: searching an empty cadence for events finds none

---
 bliss/drift_search/event_search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index dfc1878..ede35c9 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -79,6 +79,10 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
 
     // TODO: should we find "matches" between same-scan as part of filtering
 
+    if (cadence_with_hits._observations.empty()) {
+        return detected_events;
+    }
+
     // assume the on_target is the 0-indexed target inside the cadence. This can be adjusted
     // or we could even loop over multiple on_targets in the future, so keep it as a variable
     const int64_t on_target_index = 0;
-- 
2.43.0


From 2acabc34b08067342b7f5b80d0ff9c0eccd69901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 51/98] fix: drifts wider than the channel are not sliced out
 of bounds by the generic kernel

---
 bliss/drift_search/kernels/drift_integration_bland.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/kernels/drift_integration_bland.cpp b/bliss/drift_search/kernels/drift_integration_bland.cpp
index 48e6a3c..b6f26b3 100644
--- a/bliss/drift_search/kernels/drift_integration_bland.cpp
+++ b/bliss/drift_search/kernels/drift_integration_bland.cpp
@@ -63,6 +63,9 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
 
                     int64_t spectrum_freq_slice_start = channel_offset;
                     int64_t spectrum_freq_slice_end   = number_channels;
+                    if (spectrum_freq_slice_start >= spectrum_freq_slice_end) {
+                        continue; // the drift has left the channel at this step
+                    }
 
                     auto drift_slice = bland::slice(drift_plane,
                                                     bland::slice_spec{0, drift_index, drift_index + 1},
@@ -144,6 +147,9 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        continue; // the drift has left the channel at this step
+                    }
 
                     auto drift_slice = bland::slice(drift_plane,
                                                     bland::slice_spec{0, drift_index, drift_index + 1},
-- 
2.43.0


From dfa3e74d50bded3ff6ea6db66d5bb11ba52af53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 52/98] fix: drift integration and hit search of views start at
 the view, not at its buffer

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 1 +
 bliss/drift_search/kernels/drift_integration_cpu.cpp    | 4 ++++
 bliss/drift_search/kernels/local_maxima_cpu.cpp         | 1 +
 3 files changed, 6 insertions(+)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 62653bf..5eda4ae 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -95,6 +95,7 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    doppler_spectrum_data += doppler_spectrum.offsets()[0] + doppler_spectrum.offsets()[1];
 
     auto visited =
             bland::ndarray(doppler_spectrum.shape(), 0, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index d707e15..9d5a5b9 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -25,6 +25,10 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     auto rfi_strides = rfi_mask.strides();
     auto rfi_shape   = rfi_mask.shape();
 
+    // views start at an offset into their buffer
+    spectrum_ptr += spectrum_grid.offsets()[0] + spectrum_grid.offsets()[1];
+    rfi_ptr += rfi_mask.offsets()[0] + rfi_mask.offsets()[1];
+
     int32_t time_steps      = spectrum_grid.size(0);
     auto number_channels = spectrum_grid.size(1);
     auto number_drifts = static_cast<int64_t>(drift_rates.size());
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index c2b3798..9c77da9 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -20,6 +20,7 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    doppler_spectrum_data += doppler_spectrum.offsets()[0] + doppler_spectrum.offsets()[1];
 
     // Use 1 to mark visited, then we can potentially replace this creation with a mask of above thresh to speed things
     // up a bit
-- 
2.43.0


From 61a4da8c75e26537f56706ee7660111f51d02310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 53/98] fix: the coarse channel of a hit survives serialization

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..88d6eeb 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -13,6 +13,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setDriftRate(this_hit.drift_rate_Hz_per_sec);
     signal_builder.setDriftIndex(this_hit.rate_index);
     signal_builder.setSnr(this_hit.snr);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     signal_builder.setNumTimesteps(this_hit.time_span_steps); // for us, redundant with driftSteps
     // the power and incoherentpower are redundant in bliss, but were not in seticore
     // the seticore power was normalized for computing an SNR, the incoherentpower was just the integrated power
@@ -38,6 +39,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     // rounded up power-of-2 value
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
 
     this_hit.start_time_sec = signal_reader.getStartTime();
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
-- 
2.43.0


From aa4ec81331c981889ca8666d291f2dd7f02f21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 54/98] fix: the number of a coarse channel survives
 serialization

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 88d6eeb..613ab98 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -57,7 +57,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     auto md_builder = cc_builder.initMd();
     md_builder.setFch1(cc.fch1());
     // fil_builder.setBeam(); // not dealing with multiple beams (yet)
-    // fil_builder.setCoarseChannel(); // not dealing with multiple coarse channels (yet)
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
     // fil_builder.setData(); // don't need or want to duplicate large chunks of data (yet)
     md_builder.setDec(cc.src_dej());
     md_builder.setRa(cc.src_raj());
@@ -102,7 +102,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
+                                          0 /* za_start */,
+                                          md.getCoarseChannel()
     );
 
     std::list<hit> deserialized_hits;
-- 
2.43.0


From 582ddb2d5d4e2609ae2676c23f5f1831c9c9d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 55/98] fix: writing a scan saves the hits of channels not read
 yet

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 613ab98..40bebc6 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -140,7 +140,8 @@ void bliss::detail::bliss_scan_to_capnp_scan(Scan::Builder &scan_builder, scan s
     auto serialized_coarse_channels = scan_builder.initCoarseChannels(number_coarse_channels);
 
     for (int cc_index=0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = scan_with_hits.peak_coarse_channel(cc_index);
+        // hits belong to the scan whether or not the channel they are in has been read before
+        auto cc = scan_with_hits.read_coarse_channel(cc_index);
         if (cc != nullptr) {
             auto cc_builder = serialized_coarse_channels[cc_index];
             bliss_coarse_channel_to_capnp_coarse_channel_message(cc_builder, *cc);
-- 
2.43.0


From 137e13cfc155186988ae2d59d2b457d0e8d61ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 56/98] fix: result files are opened at the path given, not at
 whatever follows it in memory

---
 bliss/file_types/detail/raii_file_helpers.cpp | 4 ++--
 bliss/file_types/detail/raii_file_helpers.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..73b2900 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -7,12 +7,12 @@ using namespace bliss::detail;
 
 bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_path) {
     struct stat buffer;
-    bool file_exists = (stat(file_path.data(), &buffer) == 0);
+    bool file_exists = (stat(std::string(file_path).c_str(), &buffer) == 0);
     if (file_exists) {
         fmt::print("WARN: writing to file {} that already exists. Existing contents will be overwritten.\n", file_path);
     }
 
-    _fd = open(file_path.data(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+    _fd = open(std::string(file_path).c_str(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
     if (_fd == -1) {
         auto str_err = strerror(errno);
         auto err_msg =
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..6e51773 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -7,6 +7,8 @@
 #include <fcntl.h>  // for 'open' and 'O_WRONLY'
 #include <unistd.h> // for 'close'
 
+#include <string>
+
 namespace bliss {
 
 namespace detail {
@@ -21,7 +23,7 @@ struct raii_file_for_write {
 struct raii_file_for_read {
     int _fd;
     raii_file_for_read(std::string_view file_path) {
-        _fd = open(file_path.data(), O_RDONLY);
+        _fd = open(std::string(file_path).c_str(), O_RDONLY);
         if (_fd == -1) {
             auto str_err = strerror(errno);
             auto err_msg =
-- 
2.43.0


From 1744874f60749b737767c1bcba5ab1f9e9a8fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 57/98] fix: an unknown result file format is reported as such

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From 32f13aaf53fb11e2c5481f92cda75157962385e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 58/98] fix: the dat header names every column of the table

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..b9cb1f6 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -119,7 +119,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From 12d0546f675a8e56117718e30d7681152c47e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 59/98] fix: a dat file that cannot be written completely is an
 exception

---
 bliss/file_types/dat_file.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index b9cb1f6..be575a3 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -4,7 +4,10 @@
 
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <cerrno>
 #include <cstdio>
+#include <cstring>
 #include <ext/stdio_filebuf.h>
 #include <ios>
 #include <regex>
@@ -130,9 +133,15 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
-    auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    auto contents = header + format_hits_to_dat_list(hits);
+    for (size_t written = 0; written < contents.size();) {
+        auto count = write(output_file._fd, contents.c_str() + written, contents.size() - written);
+        if (count < 0 && errno != EINTR) {
+            throw std::runtime_error(
+                    fmt::format("write_scan_hits_to_dat_file: could not write '{}' ({})", file_path, strerror(errno)));
+        }
+        written += std::max<ssize_t>(count, 0);
+    }
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
-- 
2.43.0


From cedb647f45655a1619225a099c1e5171f8b5dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 60/98] fix: every input file gets its own default output file

---
 bliss/bliss_find_hits.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..e4ca1da 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,22 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            auto scan_output_path   = output_path;
+            auto scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From 1eb086b3d145549a208d74448fe96081162a8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 61/98] fix: bliss_find_hits fails when its results could not
 be found or written

---
 bliss/bliss_find_hits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index e4ca1da..0905c37 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -163,6 +163,7 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
 }
-- 
2.43.0


From 4c7573e4f299fb2bf50b45dd5cb92e9690381bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 62/98] fix: a slice to the end from a hugely negative channel
 does not overflow

---
 bliss/core/scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 796f4ca..34a8511 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -387,7 +387,7 @@ void bliss::scan::push_device() {
 }
 
 bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t count) {
-    if (count == -1) {
+    if (count == -1 && start_channel >= 0) {
         fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({})\n", get_number_coarse_channels() - start_channel);
         count = get_number_coarse_channels() - start_channel;
     }
-- 
2.43.0


From 5c4baf2302f998a2b74aac52d7a46b814688ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 63/98] fix: a response of the wrong length is refused on a
 channel of one fine channel too

---
 bliss/preprocess/passband_static_equalize.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 28368be..bbc6335 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -10,6 +10,7 @@
 #include <fmt/ranges.h>
 
 #include <cmath>
+#include <stdexcept>
 
 using namespace bliss;
 
@@ -107,7 +108,12 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
 coarse_channel bliss::equalize_passband_filter(coarse_channel cc, bland::ndarray h) {
     h = h.to(cc.device());
     cc.set_data(bland::ndarray_deferred([cc_data=cc.data(), h]() mutable {
-        return bland::divide(cc_data, h);
+        bland::ndarray data      = cc_data;
+        auto           equalized = bland::divide(data, h);
+        if (equalized.shape() != data.shape()) {
+            throw std::invalid_argument("equalize_passband_filter: response does not match the number of fine channels");
+        }
+        return equalized;
     }));
     return cc;
 }
-- 
2.43.0


From 87a4e1b4df7de5b491e98f5dee0b263e2fa02538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 64/98] fix: a drift range beyond 32 bits is refused instead of
 overflowing

---
 bliss/drift_search/integrate_drifts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 39d7e00..7fda391 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,6 +11,7 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <limits>
 #include <stdexcept>
 
 using namespace bliss;
@@ -22,6 +23,11 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
     if (time_steps < 2) {
         throw std::invalid_argument("integrate_drifts: a drift needs at least two time steps");
     }
+    // Spans and channel offsets along a drift are kept in 32 bits
+    constexpr int64_t largest_span = std::numeric_limits<int32_t>::max() / 2;
+    if (options.low_rate < -largest_span || options.high_rate > largest_span) {
+        throw std::invalid_argument("integrate_drifts: the drift range reaches further than can be represented");
+    }
     auto maximum_drift_span = time_steps - 1;
 
     // Convert the drift options to specific drift info
-- 
2.43.0


From fec507b16ddf81270036341fa2a8ce92f6312be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 65/98] fix: drift integration refuses a mask that does not
 cover the data

---
 bliss/drift_search/integrate_drifts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 7fda391..e19f856 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -67,6 +67,10 @@ coarse_channel bliss::integrate_drifts(coarse_channel cc_data, integrate_drifts_
 
     auto drifts = compute_drifts(cc_data.ntsteps(), cc_data.foff(), cc_data.tsamp(), options);
 
+    if (cc_data.mask().shape() != cc_data.data().shape()) {
+        throw std::invalid_argument("integrate_drifts: the mask does not have the shape of the data");
+    }
+
     fmt::print("INFO: Searching drift rates from {}Hz/sec to {}Hz/sec\n",
                drifts.front().drift_rate_Hz_per_sec,
                drifts.back().drift_rate_Hz_per_sec);
-- 
2.43.0


From 8c69765aa8658d4cf3713add1c8d84925fc76d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 66/98] fix: a scan read from a hits file keeps its own
 telescope and channel count

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 40bebc6..1aab63b 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -169,6 +169,8 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
     scan_with_hits.set_foff(md.getFoff());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
+    scan_with_hits.set_nchans(md.getNumChannels());
 
     return scan_with_hits;
 }
-- 
2.43.0


From 95b342539629094505abb4b4c75716777c92e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 67/98] fix: result files with more than 64 MiB in one message
 can be read back

---
 bliss/file_types/cpnp_files.cpp              | 10 +++++-----
 bliss/file_types/detail/cpnp_hit_builder.cpp | 11 +++++++++++
 bliss/file_types/detail/cpnp_hit_builder.hpp |  6 ++++++
 bliss/file_types/events_file.cpp             |  2 +-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..b170a95 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -45,7 +45,7 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
     while (true) {
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
             auto                         hit_reader    = message.getRoot<Hit>();
             auto                         signal_reader = hit_reader.getSignal();
 
@@ -76,7 +76,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -98,7 +98,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -121,7 +121,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -143,7 +143,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 1aab63b..7592507 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -2,6 +2,8 @@
 #include "cpnp_hit_builder.hpp"
 #include <core/hit.hpp>
 
+#include <sys/stat.h>
+
 using namespace bliss;
 using namespace bliss::detail;
 
@@ -214,3 +216,12 @@ cadence bliss::detail::capnp_cadence_message_to_cadence(Cadence::Reader &cadence
     }
     return deserialized_cadence;
 }
+
+capnp::ReaderOptions bliss::detail::reader_options_for_file(int fd) {
+    capnp::ReaderOptions options;
+    struct stat          file_info;
+    if (fstat(fd, &file_info) == 0 && file_info.st_size > 0) {
+        options.traversalLimitInWords += file_info.st_size / sizeof(capnp::word);
+    }
+    return options;
+}
diff --git a/bliss/file_types/detail/cpnp_hit_builder.hpp b/bliss/file_types/detail/cpnp_hit_builder.hpp
index e877cc5..c1b3c07 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.hpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.hpp
@@ -39,4 +39,10 @@ void bliss_cadence_to_capnp_cadence_message(Cadence::Builder &obstarget_builder,
 
 cadence capnp_cadence_message_to_cadence(Cadence::Reader &obstarget_reader);
 
+/**
+ * Options to read a message from a file with: everything that fits in the file may be read, even when there is more of it
+ * than capnp accepts by default (64 MiB)
+ */
+capnp::ReaderOptions reader_options_for_file(int fd);
+
 } // namespace bliss::detail
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..b0bfe1a 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -50,7 +50,7 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
     while (true) {
 
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
 
             auto event_reader      = message.getRoot<Event>();
             auto deserialized_hits = event_reader.getHits();
-- 
2.43.0


From e68a1088a94985c28b31cd2b925ac86dbccc48f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 68/98] fix: the command-line tools report an unusable command
 line through their exit status

---
 bliss/bliss_find_hits.cpp                     | 2 +-
 bliss/bliss_generate_channelizer_response.cpp | 2 +-
 bliss/bliss_hits_to_dat.cpp                   | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 0905c37..838601c 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -106,7 +106,7 @@ int main(int argc, char *argv[]) {
 
     if (!parse_result || help) {
         std::cout << clipp::make_man_page(cli, "bliss_find_hits");
-        return 0;
+        return help ? 0 : 1; // asking for help is fine, an unusable command line is not
     }
 
     auto pipeline_object = bliss::observation_target(pipeline_files, nchan_per_coarse);
diff --git a/bliss/bliss_generate_channelizer_response.cpp b/bliss/bliss_generate_channelizer_response.cpp
index a51f308..51c5248 100644
--- a/bliss/bliss_generate_channelizer_response.cpp
+++ b/bliss/bliss_generate_channelizer_response.cpp
@@ -62,7 +62,7 @@ int main(int argc, char *argv[]) {
         "GBT: ./bliss_generate_channelizer_response -f 1048576 -N 12 -M 256\n");
 
         std::cout << man_page;
-        return 0;
+        return help ? 0 : 1; // asking for help is fine, an unusable command line is not
     }
 
     // auto h_resp = bliss::gen_coarse_channel_response(131072, 2048, 4);
diff --git a/bliss/bliss_hits_to_dat.cpp b/bliss/bliss_hits_to_dat.cpp
index 8773be5..c5ddc8e 100644
--- a/bliss/bliss_hits_to_dat.cpp
+++ b/bliss/bliss_hits_to_dat.cpp
@@ -40,13 +40,13 @@ int main(int argc, char *argv[]) {
 
     auto parse_result = clipp::parse(argc, argv, cli);
 
-    if (input_file.empty()) {
+    bool missing_input = input_file.empty() && !help;
+    if (missing_input) {
         fmt::print("Missing an input file. Use '-i' or '--input' to provide a file to convert.\n");
-        help = true;
     }
-    if (!parse_result || help) {
+    if (!parse_result || missing_input || help) {
         std::cout << clipp::make_man_page(cli, "bliss_hits_to_dat");
-        return 0;
+        return help ? 0 : 1; // asking for help is fine, an unusable command line is not
     }
 
     if (output_path.empty()) {
-- 
2.43.0


From d157fe9eb4e3fb9b7a74d7dfd3d3a7d875e81cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 69/98] fix: reductions refuse axes the array does not have or
 that are given twice

---
 bland/bland/ops/statistical.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 77eeca6..ad9a7a9 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -17,9 +17,25 @@
 
 #include <algorithm> // std::find
 #include <numeric>   // std::accumulate
+#include <stdexcept>
 
 using namespace bland;
 
+/**
+ * every axis to reduce must be an axis of a, and be given once: the reductions count the elements of each axis given and
+ * step through them
+ */
+static void check_reduced_axes(const ndarray &a, const std::vector<int64_t> &reduced_axes) {
+    for (size_t ii = 0; ii < reduced_axes.size(); ++ii) {
+        if (reduced_axes[ii] < 0 || reduced_axes[ii] >= a.ndim()) {
+            throw std::invalid_argument(
+                    fmt::format("reduction: axis {} is not an axis of an array of {} dims", reduced_axes[ii], a.ndim()));
+        }
+        if (std::find(reduced_axes.begin(), reduced_axes.begin() + ii, reduced_axes[ii]) != reduced_axes.begin() + ii) {
+            throw std::invalid_argument(fmt::format("reduction: axis {} is given more than once", reduced_axes[ii]));
+        }
+    }
+}
 
 ndarray bland::max(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out_shape = std::vector<int64_t>();
@@ -45,6 +61,7 @@ ndarray bland::max(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -67,6 +84,7 @@ ndarray bland::mean(const ndarray &a, ndarray &out, std::vector<int64_t> reduced
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -112,6 +130,7 @@ ndarray bland::masked_mean(const ndarray &a, const ndarray &mask, ndarray &out,
     if (mask.device() != compute_device) {
         throw std::runtime_error("mask is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -154,6 +173,7 @@ ndarray bland::stddev(const ndarray &a, ndarray &out, std::vector<int64_t> reduc
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -198,6 +218,7 @@ ndarray bland::masked_stddev(const ndarray &a, const ndarray &mask, ndarray &out
     if (mask.device() != compute_device) {
         throw std::runtime_error("mask is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -240,6 +261,7 @@ std::pair<ndarray, ndarray> bland::mean_stddev(const ndarray &a, ndarray &out_me
     if (out_mean.device() != compute_device || out_stddev.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -285,6 +307,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
     if (mask.device() != compute_device) {
         throw std::runtime_error("mask is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -342,6 +365,7 @@ ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int
 }
 
 ndarray bland::standardized_moment(const ndarray &a, int degree, ndarray &out, std::vector<int64_t> reduced_axes) {
+    check_reduced_axes(a, reduced_axes);
     return cpu::standardized_moment(a, degree, out, reduced_axes);
 }
 ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int64_t> reduced_axes) {
@@ -372,6 +396,7 @@ ndarray bland::sum(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
     }
+    check_reduced_axes(a, reduced_axes);
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
-- 
2.43.0


From 9219a33becca36d9fe28fc50ab9d261b21c64a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 70/98] fix: the size of a negative axis is refused instead of
 read out of bounds

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index c98932d..3cfb102 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -181,7 +181,7 @@ std::vector<int64_t> bland::ndarray::shape() const {
 }
 
 int64_t bland::ndarray::size(int64_t axis) const {
-    if (axis < _tensor.ndim) {
+    if (axis >= 0 && axis < _tensor.ndim) {
         return _tensor.shape[axis];
     } else {
         throw std::invalid_argument("bad axis for ndim");
-- 
2.43.0


From 6ad2451fb00ab786aebf4b442be8399103bdc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 71/98] fix: median of arrays that are not float32, empty, or
 over some of the axes

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 10 +++++++++-
 bland/bland/ops/statistical.cpp         |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 73df7ee..7d846f4 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -915,7 +915,15 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
 
-    auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
+    if (size == 0) {
+        throw std::invalid_argument("median: there are no elements to take the median of");
+    }
+    if (!axes.empty() && axes.size() != x.shape().size()) {
+        throw std::invalid_argument("median: the median over some of the axes is not implemented");
+    }
+
+    // the copy is the float the median is found (and returned) in, whatever the type of x
+    auto x_copy = bland::ndarray(x.shape(), ndarray::datatype::float32, x.device());
     x_copy = cpu::copy(x, x_copy);
     auto x_data = x_copy.data_ptr<float>();
     // Compute the position of the median
diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index ad9a7a9..8e75cff 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -387,6 +387,7 @@ ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int
 }
 
 float bland::median(const ndarray &x, std::vector<int64_t> reduced_axes) {
+    check_reduced_axes(x, reduced_axes);
     return cpu::median(x, reduced_axes);
 }
 
-- 
2.43.0


From a0a23d286ea776ab37675476eb7524d2b9edd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 72/98] fix: copies and pickles of a hit keep all of its values

---
 bliss/core/hit.cpp              | 39 +++++++++++++++++++++++----------
 bliss/core/include/core/hit.hpp | 18 ++++++++-------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..4548669 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -12,27 +12,42 @@ std::string bliss::hit::repr() const {
 }
 
 hit::state_tuple bliss::hit::get_state() const {
+    std::map<uint8_t, uint8_t> flag_counts;
+    for (auto &[flag, count] : rfi_counts) {
+        flag_counts[static_cast<uint8_t>(flag)] = count;
+    }
     return std::make_tuple(start_freq_index,
                            start_freq_MHz,
+                           start_time_sec,
+                           duration_sec,
                            rate_index,
                            drift_rate_Hz_per_sec,
                            power,
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
-                           // rfi_counts,
-    );
+                           binwidth,
+                           flag_counts,
+                           coarse_channel_number);
 }
 
 void bliss::hit::set_state(state_tuple state) {
-    start_freq_index      = std::get<0>(state);
-    start_freq_MHz        = std::get<1>(state);
-    rate_index            = std::get<2>(state);
-    drift_rate_Hz_per_sec = std::get<3>(state);
-    power                 = std::get<4>(state);
-    time_span_steps       = std::get<5>(state);
-    snr                   = std::get<6>(state);
-    bandwidth             = std::get<7>(state);
-    binwidth              = std::get<8>(state);
+    std::map<uint8_t, uint8_t> flag_counts;
+    std::tie(start_freq_index,
+             start_freq_MHz,
+             start_time_sec,
+             duration_sec,
+             rate_index,
+             drift_rate_Hz_per_sec,
+             power,
+             time_span_steps,
+             snr,
+             bandwidth,
+             binwidth,
+             flag_counts,
+             coarse_channel_number) = state;
+    rfi_counts.clear();
+    for (auto &[flag, count] : flag_counts) {
+        rfi_counts[static_cast<flag_values>(flag)] = count;
+    }
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..5534509 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,16 +81,18 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
-                                   // rfi /*rfi_counts*/,
-                                   >;
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   std::map<uint8_t, uint8_t> /*rfi_counts, by the value of the flag*/,
+                                   int64_t /*coarse_channel_number*/>;
 
     state_tuple get_state() const;
 
-- 
2.43.0


From 32847613cd84f12419ffbf87cb5e19d46b020c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 73/98] fix: comparisons of differently typed operands compare
 their values

---
 bland/bland/ops/cpu/comparison_cpu_impl.hpp | 22 ++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu_impl.hpp b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
index fa38cda..48b29f7 100644
--- a/bland/bland/ops/cpu/comparison_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
@@ -1,43 +1,55 @@
 #pragma once
 
+#include <cstdint>
 #include <stdexcept>
 #include <type_traits>
 
 
 namespace bland {
 
+/**
+ * The type two operands are compared in: one that holds the values of both. Left to the usual conversions a negative
+ * integer compared with an unsigned one is compared as a large positive one, and integers beyond 2^24 compared with
+ * a float are rounded first.
+ */
+template <typename A, typename B>
+using comparison_t = std::conditional_t<
+        std::is_integral_v<A> && std::is_integral_v<B>,
+        std::conditional_t<std::is_signed_v<A> == std::is_signed_v<B>, std::common_type_t<A, B>, int64_t>,
+        std::conditional_t<std::is_integral_v<A> || std::is_integral_v<B>, double, std::common_type_t<A, B>>>;
+
 struct greater_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a > b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) > static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct greater_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a >= b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) >= static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct less_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a <= b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) <= static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct less_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a < b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) < static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a == b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) == static_cast<comparison_t<A, B>>(b));
     }
 };
 
-- 
2.43.0


From 3a9f2770e1a6c15335cff7a8cb1d6f7a32f4c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 74/98] fix: the warning about swapped dimension labels is
 issued once without a data race

---
 bliss/file_types/h5_filterbank_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 26925ed..a6d7471 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,6 +5,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <algorithm>
+#include <atomic>
 #include <bland/bland.hpp>
 #include <cmath>
 #include <cstdint>
@@ -281,10 +282,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     }
     const auto nchans = read_data_attr<int64_t>("nchans");
     if (std::get<0>(time_steps) == nchans && std::get<0>(freq_bins) != nchans) {
-        static bool warning_issued = false;
-        if (!warning_issued) {
+        static std::atomic<bool> warning_issued = false;
+        if (!warning_issued.exchange(true)) {
             fmt::print("WARN h5_filterbank_file: the DIMENSION_LABELS appear out of order, time dimension matches nchans\n");
-            warning_issued = true;
         }
         // There's some files that have the dim labels for time, channels swapped
         auto temp_time_steps = freq_bins;
-- 
2.43.0


From b755e7efb361a0c13b709d251806512b5fc5a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 75/98] fix: count the elements of an array in 64 bits

std::accumulate works in the type of its initial value, so numel() and
reshape() truncated the count of arrays with 2^31 elements or more.
---
 bland/bland/ndarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 3cfb102..a828c40 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -205,7 +205,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
@@ -586,7 +586,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
-- 
2.43.0


From 3d46f0a910f2b9c446ffc25b1b30a120acfdbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 76/98] fix: sum the offsets of views in 64 bits

A view that starts 2^31 or more elements into its buffer was read and
written at a truncated, usually negative, index.
---
 bland/bland/include/bland/stride_helper.hpp   | 2 +-
 bland/bland/ndarray.cpp                       | 2 +-
 bland/bland/ops/cpu/assignment_op.hpp         | 2 +-
 bland/bland/ops/cpu/elementwise_binary_op.hpp | 6 +++---
 bland/bland/ops/cpu/elementwise_scalar_op.hpp | 8 ++++----
 bland/bland/ops/cpu/elementwise_unary_op.hpp  | 4 ++--
 bland/bland/ops/cpu/ops_cpu.cpp               | 2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp       | 2 +-
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bland/bland/include/bland/stride_helper.hpp b/bland/bland/include/bland/stride_helper.hpp
index 2117ee3..b791b76 100644
--- a/bland/bland/include/bland/stride_helper.hpp
+++ b/bland/bland/include/bland/stride_helper.hpp
@@ -17,7 +17,7 @@ struct stride_helper {
 
     int64_t to_linear_offset(const nd_coords &coords) const {
         // TODO compute linear index of curr_coords from shape and stride
-        auto linear_offset = 0;
+        int64_t linear_offset = 0;
         for (int dim = 0; dim < shape.size(); ++dim) {
             linear_offset += coords[dim] * stride[dim]; // TODO: also add offset
         }
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index a828c40..6be2f6a 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -243,7 +243,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
diff --git a/bland/bland/ops/cpu/assignment_op.hpp b/bland/bland/ops/cpu/assignment_op.hpp
index 4a693ac..42b1dd3 100644
--- a/bland/bland/ops/cpu/assignment_op.hpp
+++ b/bland/bland/ops/cpu/assignment_op.hpp
@@ -22,7 +22,7 @@ ndarray assignment_op(ndarray &out, const S &a) {
     // Current (multi-dimensional) index to read into out
     auto ndim = out_shape.size();
     std::vector<int64_t> nd_index(ndim, 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 1550818..11fbfea 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -40,9 +40,9 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     constexpr int64_t    LAST_DIM_UNROLL_FACTOR = 8;
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_scalar_op.hpp b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
index f1296da..ae511d3 100644
--- a/bland/bland/ops/cpu/elementwise_scalar_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
@@ -32,8 +32,8 @@ ndarray elementwise_scalar_op(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
@@ -76,8 +76,8 @@ ndarray elementwise_scalar_op_fast(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index 24ec5e1..97f1156 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -50,8 +50,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index dade464..4d12390 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -37,7 +37,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(x.ndim(), 0);
 
-    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), 0);
+    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), int64_t{0});
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 7d846f4..0f28e9b 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -1058,7 +1058,7 @@ struct count_impl {
         auto a_offset  = a.offsets();
 
         std::vector<int64_t> input_index(a_shape.size(), 0);
-        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
 
         int64_t count = 0;
         auto    numel = a.numel();
-- 
2.43.0


From 6afaa3861d3e83a0d4ff70d6880ae70ff81b6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 77/98] fix: loop over the elements of an array with 64-bit
 counters

Reductions and creators counted elements in an int, which overflows on
arrays with 2^31 elements or more.
---
 bland/bland/ndarray.cpp                 |  2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp | 38 +++++++++++-----------
 bland/bland/ops/creators.cpp            | 42 ++++++++++++-------------
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 6be2f6a..e62fc6f 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -142,7 +142,7 @@ bland::ndarray::ndarray(std::vector<int64_t> dims, datatype dtype, DLDevice devi
 template <typename T>
 void initialize_memory(T *data, int64_t numel, T value) {
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = value;
     }
 }
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 0f28e9b..e7133c3 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -55,12 +55,12 @@ struct mean_impl {
         using accumulator_type = double; // integer accumulators wrap and truncate
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
             accumulator_type mean            = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -166,13 +166,13 @@ struct masked_mean_impl {
         using accumulator_type = double; // integer accumulators wrap and truncate
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index  = input_index;
             accumulator_type mean             = 0;
             int64_t          elements_in_mean = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -283,7 +283,7 @@ struct stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -291,7 +291,7 @@ struct stddev_impl {
             accumulator_type accum_x2        = 0;
 
             // auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -408,7 +408,7 @@ struct masked_stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -418,7 +418,7 @@ struct masked_stddev_impl {
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -545,7 +545,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
     auto numel = out_mean.numel();
-    for (int i = 0; i < numel; ++i) {
+    for (int64_t i = 0; i < numel; ++i) {
         // Make a copy of the current input index, we'll fix the non-summed dims
         // and iterate over the reduced dims accumulating the total
         auto             reduce_nd_index = input_index;
@@ -553,7 +553,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         accumulator_type accum_x2        = 0;
 
         // auto this_reduction_mean = mean_data[mean_linear_index];
-        for (int jj = 0; jj < reduced_elements; ++jj) {
+        for (int64_t jj = 0; jj < reduced_elements; ++jj) {
             int64_t input_linear_index = 0;
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
             for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -681,7 +681,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out_mean.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -691,7 +691,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -822,7 +822,7 @@ struct standardized_moment_impl {
         double scale = 1.0 / static_cast<double>(reduced_elements - 1);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto   reduce_nd_index = input_index;
@@ -836,7 +836,7 @@ struct standardized_moment_impl {
             }
 
             auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -982,12 +982,12 @@ struct sum_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             accumulator_type total      = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
@@ -1062,7 +1062,7 @@ struct count_impl {
 
         int64_t count = 0;
         auto    numel = a.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             if (a_data[a_linear_index]) {
@@ -1127,12 +1127,12 @@ struct max_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             datatype max = std::numeric_limits<datatype>::lowest();
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 83018c9..c6a558a 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -25,13 +25,13 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -43,25 +43,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -73,25 +73,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -231,13 +231,13 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -249,25 +249,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -279,25 +279,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -426,7 +426,7 @@ void initialize_randn(T *data, int64_t numel, D distribution) {
     std::random_device rd{};
     std::mt19937       gen{rd()};
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = distribution(gen);
     }
 }
-- 
2.43.0


From 274b5a8dc56f73f1278e67ef929191bb0be4f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 78/98] fix: refuse to create arrays whose size does not fit in
 64 bits

The number of bytes of a shape wrapped, so an array of, say, 2^62 floats was
created over a zero-byte allocation. Negative sizes wrapped the same way.
---
 bland/bland/bland_tensor_internals.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index be36e00..259b0be 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -8,7 +8,10 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
+#include <algorithm> // std::max
+#include <limits>
 #include <numeric> // std::accumulate
+#include <stdexcept>
 #include <cstdlib> // posix_memalign
 #include <cerrno>
 
@@ -56,6 +59,26 @@ blandDLTensor::blandDLTensor(const std::vector<int64_t> &shape,
                              DLDataType                  dtype,
                              DLDevice                    device,
                              std::vector<int64_t>        strides) {
+    // Sizes in bytes (and so strides) have to fit in 64 bits: wrapping would allocate less than the shape addresses
+    const int64_t element_size = dtype.bits / 8;
+    const int64_t max_elements = std::numeric_limits<int64_t>::max() / std::max<int64_t>(1, element_size);
+    int64_t       num_elements = 1;
+    bool          is_empty     = false;
+    for (auto extent : shape) {
+        if (extent < 0) {
+            throw std::invalid_argument("blandDLTensor: a dimension can not have a negative size");
+        } else if (extent == 0) {
+            is_empty = true;
+        } else if (num_elements > max_elements / extent) {
+            throw std::runtime_error("Not enough memory to allocate for this tensor");
+        } else {
+            num_elements *= extent;
+        }
+    }
+    if (is_empty) {
+        num_elements = 0;
+    }
+
     DLTensor::ndim                  = shape.size();
     blandDLTensor::_shape_ownership = std::vector<int64_t>(shape);
     blandDLTensor::shape            = _shape_ownership.data();
@@ -81,8 +104,6 @@ blandDLTensor::blandDLTensor(const std::vector<int64_t> &shape,
     DLTensor::device      = device;
     DLTensor::byte_offset = 0;
     // DLPack API "requires" 256-byte alignment. TODO: understand lanes > 1 better...
-    int64_t num_elements = std::accumulate(shape.begin(), shape.end(), 1LL, std::multiplies<int64_t>());
-    int64_t element_size = (DLTensor::dtype.bits / 8);
     if (DLTensor::device.device_type == DLDeviceType::kDLCPU) {
         void *ptr = nullptr;
         auto  res = posix_memalign(&ptr, 256, num_elements * element_size);
-- 
2.43.0


From 3a661cdff7c7b7e67c1e2db1d168bfa099da0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 79/98] fix: count the fine channels of a scan in 64 bits

The channelization of a scan with 2^31 fine channels or more was inferred from
a truncated count, and the frequency of coarse channels that far in was
computed from an overflowed product.
---
 bliss/core/include/core/scan.hpp | 2 +-
 bliss/core/scan.cpp              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..eec4204 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -158,7 +158,7 @@ class scan {
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int64_t _fine_channels_per_coarse;
     // Derived values at read-time
     int64_t _num_coarse_channels;
     int64_t _coarse_channel_offset = 0;
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 34a8511..be05e33 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -47,8 +47,8 @@ constexpr std::array<std::tuple<int, double, double, const char*>, 9> known_chan
 /**
  * returned tuple is {number of coarse channels, number of fine channels per coarse}
 */
-std::tuple<int, int>
-infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp) {
+std::tuple<int64_t, int64_t>
+infer_number_coarse_channels(int64_t number_fine_channels, double foff, double tsamp) {
     for (const auto &channelization : known_channelizations) {
         auto [fine_channels_per_coarse, freq_res, time_res, version] = channelization;
 
@@ -57,7 +57,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // to expected
         if (num_coarse_channels * fine_channels_per_coarse == number_fine_channels &&
             std::abs(std::abs(foff) - freq_res) < .1 && std::abs(std::abs(tsamp) - time_res) < .1) {
-            return std::make_tuple(num_coarse_channels, std::get<0>(channelization));
+            return {num_coarse_channels, fine_channels_per_coarse};
         }
     }
 
-- 
2.43.0


From 14036aa720443d487e2f2bc7b583e6b424e01372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 80/98] fix: device names mean the device they name

"cudamanaged" and "cudahost" were taken for "cuda" because of their prefix, as
was anything else that starts like it, and so was an id with trailing text.
---
 bland/bland/ndarray.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index e62fc6f..1f65b3d 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -9,9 +9,9 @@
 #include <fmt/ranges.h>
 #include <fmt/std.h>
 
+#include <charconv> // from_chars (parsing device id)
 #include <complex> // std::complex
 #include <numeric> // accumulate
-#include <regex> // regex (parsing device id)
 
 using namespace bland;
 
@@ -96,28 +96,35 @@ std::string bland::ndarray::dev::repr() {
     return r;
 }
 
+/**
+ * the id in a device given as <name>:<id>, which is 0 when there is none
+ */
+static int32_t parse_device_id(std::string_view dev_str, size_t name_length) {
+    int32_t device_id = 0;
+    if (dev_str.size() > name_length) {
+        auto id_str       = dev_str.substr(name_length + 1);
+        auto [end, error] = std::from_chars(id_str.data(), id_str.data() + id_str.size(), device_id);
+        if (error != std::errc{} || end != id_str.data() + id_str.size() || device_id < 0) {
+            throw std::runtime_error("Device id is not a number");
+        }
+    }
+    return device_id;
+}
+
 bland::ndarray::dev::dev(std::string_view dev_str) {
+    auto dev_name = dev_str.substr(0, dev_str.find(':'));
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
+    } else if (dev_name == "cuda") {
         device_type = DLDeviceType::kDLCUDA;
-        device_id   = 0;
-        if (dev_str.size() > 4 && dev_str[4] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(5)));
-        }
-    } else if (dev_str.substr(0, 11) == "cudamanaged") {
+        device_id   = parse_device_id(dev_str, dev_name.size());
+    } else if (dev_name == "cudamanaged") {
         device_type = DLDeviceType::kDLCUDAManaged;
-        device_id   = 0;
-        if (dev_str.size() > 11 && dev_str[11] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(12)));
-        }
-    } else if (dev_str.substr(0, 8) == "cudahost") {
+        device_id   = parse_device_id(dev_str, dev_name.size());
+    } else if (dev_name == "cudahost") {
         device_type = DLDeviceType::kDLCUDAHost;
-        device_id   = 0;
-        if (dev_str.size() > 8 && dev_str[8] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(9)));
-        }
+        device_id   = parse_device_id(dev_str, dev_name.size());
     } else {
         throw std::runtime_error("Device type not supported in bland yet");
 	}
-- 
2.43.0


From effe3e146ae48c585a5ffb4ae18cc14218127c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 81/98] fix: refuse names that are not a datatype instead of
 leaving it uninitialized

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 1f65b3d..368888f 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -60,6 +60,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::invalid_argument("Unknown datatype name");
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
-- 
2.43.0


From aa35dfedd979c0f36666c5bd129e23f59d7a2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 82/98] fix: refuse masks that are not uint8 in masked
 statistics

The bytes of a mask with a wider type were read as if each was an element.
---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index e7133c3..a6acbba 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -145,7 +145,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -378,7 +378,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -651,7 +651,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
-- 
2.43.0


From 87f748ef1a8d021ddc2567a21fa05a330afb701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 83/98] fix: refuse coarse channels whose data is not float32
 or mask is not uint8

Integration, noise estimation and the flaggers read the data as float32 and
the mask as uint8 whatever their types were, reading beyond narrower
arrays and computing with misread values.
---
 bliss/core/coarse_channel.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bliss/core/coarse_channel.cpp b/bliss/core/coarse_channel.cpp
index 98f2558..b37219a 100644
--- a/bliss/core/coarse_channel.cpp
+++ b/bliss/core/coarse_channel.cpp
@@ -6,6 +6,7 @@
 #include "fmt/format.h"
 #include "fmt/ranges.h"
 
+#include <stdexcept>
 #include <variant>
 
 using namespace bliss;
@@ -203,7 +204,12 @@ coarse_channel::coarse_channel(bland::ndarray data,
 bland::ndarray bliss::coarse_channel::data() {
     // TODO: add an option to compute graph to memoize the data read from disk
     // _data = _data.to(_device);
-    return _data.to(_device);;
+    bland::ndarray data = _data.to(_device);
+    // Everything that works on the data reads it as float32
+    if (data.dtype().code != kDLFloat || data.dtype().bits != 32) {
+        throw std::invalid_argument("coarse_channel::data: the data of a coarse channel has to be float32");
+    }
+    return data;
 }
 
 void bliss::coarse_channel::set_data(bland::ndarray new_data) {
@@ -217,7 +223,12 @@ void bliss::coarse_channel::set_data(bland::ndarray_deferred deferred_data) {
 bland::ndarray bliss::coarse_channel::mask() {
     // TODO: add an option to compute graph to memoize the mask read from disk
     // _mask = _mask.to(_device);
-    return _mask.to(_device);
+    bland::ndarray mask = _mask.to(_device);
+    // Everything that works on the mask reads it as uint8 flags
+    if (mask.dtype().code != kDLUInt || mask.dtype().bits != 8) {
+        throw std::invalid_argument("coarse_channel::mask: the mask of a coarse channel has to be uint8");
+    }
+    return mask;
 }
 
 void bliss::coarse_channel::set_mask(bland::ndarray new_mask) {
-- 
2.43.0


From 5bac061c18fa901cfa77dd5dd2c4981382e644eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 84/98] fix: scalarize casts from the datatype of the array

It read the element's bytes as the requested type, and read an element
of arrays that have none.
---
 bland/bland/ndarray.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 368888f..20870bc 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -222,16 +222,47 @@ int64_t bland::ndarray::ndim() const {
     return _tensor.ndim;
 }
 
+/**
+ * Read the element at the given offset from the start of the data and cast it to the given type
+ */
+template <typename T>
+static T element_as(const ndarray &a, int64_t offset) {
+    auto dtype = a.dtype();
+    if (dtype.code == kDLFloat) {
+        switch (dtype.bits) {
+        case 32: return static_cast<T>(a.data_ptr<float>()[offset]);
+        case 64: return static_cast<T>(a.data_ptr<double>()[offset]);
+        }
+    } else if (dtype.code == kDLInt) {
+        switch (dtype.bits) {
+        case 8: return static_cast<T>(a.data_ptr<int8_t>()[offset]);
+        case 16: return static_cast<T>(a.data_ptr<int16_t>()[offset]);
+        case 32: return static_cast<T>(a.data_ptr<int32_t>()[offset]);
+        case 64: return static_cast<T>(a.data_ptr<int64_t>()[offset]);
+        }
+    } else if (dtype.code == kDLUInt) {
+        switch (dtype.bits) {
+        case 8: return static_cast<T>(a.data_ptr<uint8_t>()[offset]);
+        case 16: return static_cast<T>(a.data_ptr<uint16_t>()[offset]);
+        case 32: return static_cast<T>(a.data_ptr<uint32_t>()[offset]);
+        case 64: return static_cast<T>(a.data_ptr<uint64_t>()[offset]);
+        }
+    }
+    throw std::runtime_error("scalarize: the datatype of the array cannot be cast to a scalar");
+}
+
 template <typename T>
 T bland::ndarray::scalarize() const {
     if (numel() > 1) {
         throw std::runtime_error("scalarize: There is more than one element, so not a scalar. Cannot scalarize");
     }
+    if (numel() < 1) {
+        throw std::runtime_error("scalarize: There is no element. Cannot scalarize");
+    }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
-    // TODO also check datatype makes sense to scalarize
     auto offsets = cpu_copy.offsets();
-    return cpu_copy.data_ptr<T>()[std::accumulate(offsets.begin(), offsets.end(), int64_t{0})];
+    return element_as<T>(cpu_copy, std::accumulate(offsets.begin(), offsets.end(), int64_t{0}));
 }
 
 template float    bland::ndarray::scalarize<float>() const;
@@ -256,8 +287,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
-    // TODO also check datatype makes sense to scalarize
-    return data_ptr<T>()[linear_offset];
+    return element_as<T>(*this, linear_offset);
 }
 
 template float    bland::ndarray::scalarize<float>(const std::vector<int64_t> &) const;
-- 
2.43.0


From aa8cfc9ef8fe44562e793c3faad23fd44d83be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 85/98] fix: hits of different coarse channels compare
 different

The start frequency index is relative to the coarse channel, and every
other value takes part in the comparison.
---
 bliss/core/include/core/hit.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index 5534509..4a097af 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -40,7 +40,8 @@ struct hit {
                snr == other.snr &&
                bandwidth == other.bandwidth &&
                binwidth == other.binwidth &&
-               rfi_counts == other.rfi_counts;
+               rfi_counts == other.rfi_counts &&
+               coarse_channel_number == other.coarse_channel_number;
     }
 
     bool operator<(const hit& other) const {
@@ -77,7 +78,10 @@ struct hit {
         if (binwidth != other.binwidth) {
             return binwidth < other.binwidth;
         }
-        return rfi_counts < other.rfi_counts;
+        if (rfi_counts != other.rfi_counts) {
+            return rfi_counts < other.rfi_counts;
+        }
+        return coarse_channel_number < other.coarse_channel_number;
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-- 
2.43.0


From 3517588fd301fdfd52aa223394ce4ceb886efe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 86/98] fix: plot_utils reads the hits of a coarse channel

hits is a property of coarse_channel, calling its value raised a TypeError
in get_hits_list and plot_hits.
---
 bliss/python/blissdedrift/plot_utils/_encodings.py | 5 ++++-
 bliss/python/blissdedrift/plot_utils/plot_hits.py  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/python/blissdedrift/plot_utils/_encodings.py b/bliss/python/blissdedrift/plot_utils/_encodings.py
index 5124a50..d4df40a 100644
--- a/bliss/python/blissdedrift/plot_utils/_encodings.py
+++ b/bliss/python/blissdedrift/plot_utils/_encodings.py
@@ -13,7 +13,10 @@ def get_hits_list(pipeline_object, origin_name=None):
             # Try to come up with a good one, but it probably doesn't matter
             origin_name = f"{pipeline_object.source_name}:{pipeline_object.src_dej:1.4f},{pipeline_object.src_raj:1.4f}:{pipeline_object.tstart:1.4f}"
         # This should succeed for `coarse_channel` and `scan` which can directly query `hits()`
-        hits = pipeline_object.hits()
+        hits = pipeline_object.hits
+        if callable(hits):
+            # `hits` is a method of `scan` but a property of `coarse_channel`
+            hits = hits()
         hits_list = [{
             "start_freq_MHz": hit.start_freq_MHz, "drift_rate_Hz_per_sec": hit.drift_rate_Hz_per_sec,
             "SNR": hit.snr, "power": hit.power, "bandwidth_Hz": hit.bandwidth,
diff --git a/bliss/python/blissdedrift/plot_utils/plot_hits.py b/bliss/python/blissdedrift/plot_utils/plot_hits.py
index 1b1edbb..ba4a0a8 100644
--- a/bliss/python/blissdedrift/plot_utils/plot_hits.py
+++ b/bliss/python/blissdedrift/plot_utils/plot_hits.py
@@ -39,7 +39,7 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
     end_time = start_time + tsamp * plot_spectrum.shape[0]
 
     if focus_hits is None and all_hits is None:
-        all_hits = cc.hits()
+        all_hits = cc.hits
 
     def base_plots_and_axes(plot_freq, plt_spec, plt_plane):
         gs = gridspec.GridSpec(20, 1)
-- 
2.43.0


From 5f87a2f33c40b7ef9b05459f6186d8b93ba44927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 87/98] fix: plot_hits draws boxes around hits of ascending
 bands

The edges were already ordered, yet with a positive foff the bandwidth was
taken off the box, turning the box of a narrow drift inside out.
---
 .../blissdedrift/plot_utils/plot_hits.py      | 24 +++++--------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/bliss/python/blissdedrift/plot_utils/plot_hits.py b/bliss/python/blissdedrift/plot_utils/plot_hits.py
index ba4a0a8..fe80be5 100644
--- a/bliss/python/blissdedrift/plot_utils/plot_hits.py
+++ b/bliss/python/blissdedrift/plot_utils/plot_hits.py
@@ -70,12 +70,8 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
 
             lower_edge = min(start_freq, end_freq)
             upper_edge = max(start_freq, end_freq)
-            if foff < 0:
-                lower_edge -= hit.bandwidth*1e-6/2
-                upper_edge += hit.bandwidth*1e-6/2
-            else:
-                lower_edge += hit.bandwidth*1e-6/2
-                upper_edge -= hit.bandwidth*1e-6/2
+            lower_edge -= hit.bandwidth*1e-6/2
+            upper_edge += hit.bandwidth*1e-6/2
 
             color = "white"
             angle = 0
@@ -139,12 +135,8 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
         # start_freq and the box width should be adjusted by the bandwidth
         lower_edge = min(start_freq, end_freq)
         upper_edge = max(start_freq, end_freq)
-        if foff < 0:
-            lower_edge -= hit.bandwidth*1e-6/2
-            upper_edge += hit.bandwidth*1e-6/2
-        else:
-            lower_edge += hit.bandwidth*1e-6/2
-            upper_edge -= hit.bandwidth*1e-6/2
+        lower_edge -= hit.bandwidth*1e-6/2
+        upper_edge += hit.bandwidth*1e-6/2
 
         if all_hits is None:
             all_hits = focus_hits
@@ -158,12 +150,8 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
                 ax1.plot([bg_start_freq, bg_end_freq], [start_time, end_time],  color="none", path_effects=[pe.Stroke(linewidth=.25, foreground='black'), pe.Stroke(linewidth=.125, foreground='red'), pe.Normal()])
                 bg_lower_edge = min(bg_start_freq, bg_end_freq)
                 bg_upper_edge = max(bg_start_freq, bg_end_freq)
-                if foff < 0:
-                    bg_lower_edge -= bg_hit.bandwidth*1e-6/2
-                    bg_upper_edge += bg_hit.bandwidth*1e-6/2
-                else:
-                    bg_lower_edge += bg_hit.bandwidth*1e-6/2
-                    bg_upper_edge -= bg_hit.bandwidth*1e-6/2
+                bg_lower_edge -= bg_hit.bandwidth*1e-6/2
+                bg_upper_edge += bg_hit.bandwidth*1e-6/2
 
                 rect = Rectangle((bg_lower_edge, start_time + tsamp*.05), bg_upper_edge-bg_lower_edge, (end_time-start_time)-tsamp*.05, edgecolor="black", fill=None, angle=angle, rotation_point="center")
                 ax1.add_patch(rect)
-- 
2.43.0


From a629b05946dfc281aaeec89fcd25aaf1145c734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 88/98] fix: plot_hits shows hits near the edges of the band

A frequency before the band was mirrored into it, so the plot of a hit close
to the first channel left that hit out, and wide channels gave an empty plot.
---
 bliss/python/blissdedrift/plot_utils/plot_hits.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bliss/python/blissdedrift/plot_utils/plot_hits.py b/bliss/python/blissdedrift/plot_utils/plot_hits.py
index fe80be5..127bfa6 100644
--- a/bliss/python/blissdedrift/plot_utils/plot_hits.py
+++ b/bliss/python/blissdedrift/plot_utils/plot_hits.py
@@ -100,10 +100,11 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
             max_freq += difference/2
             min_freq -= difference/2
 
-        plot_start_freq_index = abs(min_freq - fch1)/abs(foff)
-        plot_end_freq_index = abs(max_freq - fch1)/abs(foff)
-        plot_lower_freq_index = int(min(plot_start_freq_index, plot_end_freq_index))
-        plot_upper_freq_index = int(max(plot_start_freq_index, plot_end_freq_index))
+        plot_start_freq_index = (min_freq - fch1)/foff
+        plot_end_freq_index = (max_freq - fch1)/foff
+        # The padding may reach beyond the band, and be narrower than a channel
+        plot_lower_freq_index = max(int(min(plot_start_freq_index, plot_end_freq_index)), 0)
+        plot_upper_freq_index = min(int(max(plot_start_freq_index, plot_end_freq_index)) + 1, nchans)
 
         # Create a gridspec instance with 10 rows
         gs = gridspec.GridSpec(20, 1)
-- 
2.43.0


From b317830c6d614041f60828f58e5c4777767b98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 89/98] fix: get_hits_list accepts cadences of more than 26
 targets

---
 bliss/python/blissdedrift/plot_utils/_encodings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/python/blissdedrift/plot_utils/_encodings.py b/bliss/python/blissdedrift/plot_utils/_encodings.py
index d4df40a..1fd07b4 100644
--- a/bliss/python/blissdedrift/plot_utils/_encodings.py
+++ b/bliss/python/blissdedrift/plot_utils/_encodings.py
@@ -45,7 +45,10 @@ def get_hits_list(pipeline_object, origin_name=None):
     try:
         # This should succeed for `cadence` which has `observations` (list of `obervation_target`)
         for index, obs_target in enumerate(pipeline_object.observations):
-            hits.extend(get_hits_list(obs_target, f"{string.ascii_uppercase[index]}"))
+            # A, B, ... Z, A1, B1, ...
+            letters = string.ascii_uppercase
+            repeat = index // len(letters)
+            hits.extend(get_hits_list(obs_target, f"{letters[index % len(letters)]}{repeat or ''}"))
         return hits
     except AttributeError:
         pass
-- 
2.43.0


From 04b8c803aba00366fa8d0823e8e4135d3aea906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 90/98] fix: sigma clipping iterates on small samples

Convergence was judged by an absolute 1e-6, so on data whose scale is near
that (normalised to a strong peak, for one) it stopped after one iteration.
---
 bliss/flaggers/sigmaclip.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 40affee..38041fa 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -10,8 +10,7 @@ using namespace bliss;
 
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
-    constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
+    auto rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
@@ -19,8 +18,9 @@ bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, f
         rfi = (data < (mean - stddev * low)) + (data > (mean + stddev * high));
 
         auto [new_mean, new_std] = bland::masked_mean_stddev(data, rfi);
-        if (std::abs((new_mean - mean).scalarize<float>()) < eps &&
-            std::abs((new_std - stddev).scalarize<float>()) < eps) {
+        // The samples may be in any unit, so only estimates that did not move at all are known to have converged
+        if (new_mean.scalarize<float>() == mean.scalarize<float>() &&
+            new_std.scalarize<float>() == stddev.scalarize<float>()) {
             break;
         } else {
             mean   = new_mean;
-- 
2.43.0


From 7651350c3f22d7310c25185896014e5e80a0b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 91/98] fix: a default constructed scan has no coarse channels

The number of channels was uninitialised, so reading the hits of such a scan
(or of one read from a dat file) ran over an arbitrary number of channels.
---
 bliss/core/include/core/scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index eec4204..ffebb68 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -158,9 +158,9 @@ class scan {
 
 
     // Derived OR inferred
-    int64_t _fine_channels_per_coarse;
+    int64_t _fine_channels_per_coarse = 0;
     // Derived values at read-time
-    int64_t _num_coarse_channels;
+    int64_t _num_coarse_channels = 0;
     int64_t _coarse_channel_offset = 0;
 
     // slow time is number of spectra
-- 
2.43.0


From 15b93bc442f1b0486afdee0842daf6e3371757d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 92/98] fix: read the channel width of a dat file in the unit
 it is written in

The header has Hz, foff is in MHz.
---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index be575a3..bdb4114 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -166,7 +166,7 @@ scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
             auto dej_sexagesimal = match[3];
         } else if (std::regex_search(line, match, tstart_regex)) {
             deserialized_scan.set_tsamp(std::stod(match[1]));
-            deserialized_scan.set_foff(std::stod(match[2]));
+            deserialized_scan.set_foff(std::stod(match[2]) * 1e-6); // the file has Hz
             // scan_data.max_drift_rate = match[3];
             // scan_data.obs_length = std::stod(match[4]);
         } else if (std::regex_search(line, match, data_regex)) {
-- 
2.43.0


From 5d138604063ad74c91628b04c176ddc6c9007bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 93/98] fix: reading a dat file closes its descriptor once

Both the stream buffer and the file owner closed it; the second close hits
whatever another thread opened in between.
---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index bdb4114..54c9c1a 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -147,7 +147,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(in_file._fd, std::ios::in);
+    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(dup(in_file._fd), std::ios::in); // closes its own descriptor
     auto in_stream = std::istream(&in_buff);
 
     std::string line;
-- 
2.43.0


From 5166699ee6d4c2cb1a26e5d287f3a9cbd179cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 94/98] fix: a scan refusing a device stays on its own

scan::set_device stored the device before checking it, so that after the
exception every channel still to be read, and push_device, failed too.
---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index be05e33..43d9f78 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -360,8 +360,6 @@ bland::ndarray::dev bliss::scan::device() {
 }
 
 void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
-    _device = device;
-
     if (device.device_type == bland::ndarray::dev::cuda.device_type ||
         device.device_type == bland::ndarray::dev::cuda_managed.device_type) {
         if (!bland::g_config.check_is_valid_cuda_device(device.device_id, verbose)) {
@@ -369,6 +367,8 @@ void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
         }
     }
 
+    _device = device;
+
     for (auto &[channel_index, cc] : _coarse_channels) {
         cc->set_device(device);
     }
-- 
2.43.0


From 8a534961eb01293b92c2b3ce477cc1e55394cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 95/98] fix: uniform random arrays of unsupported types are
 refused

rand_uniform returned uninitialized memory for types it has no distribution for.
---
 bland/bland/ops/creators.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index c6a558a..5eaf210 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -467,6 +467,8 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_real_distribution<double> d{static_cast<double>(low), static_cast<double>(high)};
             initialize_randn(new_array.data_ptr<double>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported datatype");
         }
     } else if (dtype.code == DLDataTypeCode::kDLInt) {
         if (dtype.bits == 8) {
@@ -481,6 +483,8 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_int_distribution<int64_t> d{static_cast<int64_t>(low), static_cast<int64_t>(high)};
             initialize_randn(new_array.data_ptr<int64_t>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported datatype");
         }
     } else if (dtype.code == DLDataTypeCode::kDLUInt) {
         if (dtype.bits == 8) {
@@ -495,7 +499,11 @@ ndarray bland::rand_uniform(std::vector<int64_t> shape, T low, T high, DLDataTyp
         } else if (dtype.bits == 64) {
             std::uniform_int_distribution<uint64_t> d{static_cast<uint64_t>(low), static_cast<uint64_t>(high)};
             initialize_randn(new_array.data_ptr<uint64_t>(), new_array.numel(), d);
+        } else {
+            throw std::runtime_error("rand_uniform: unsupported datatype");
         }
+    } else {
+        throw std::runtime_error("rand_uniform: unsupported datatype");
     }
 
     return new_array;
-- 
2.43.0


From 65593bda186e91db5c8d2b9fea8bfd34711429da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 96/98] fix: the duration of a scan follows its sampling time

set_tsamp left the duration computed from the old sampling time (and, in a
default constructed scan, uninitialized), which event search uses.
---
 bliss/core/include/core/scan.hpp | 4 ++--
 bliss/core/scan.cpp              | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index ffebb68..02cc934 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -164,8 +164,8 @@ class scan {
     int64_t _coarse_channel_offset = 0;
 
     // slow time is number of spectra
-    int64_t _ntsteps;
-    double  _tduration_secs;
+    int64_t _ntsteps = 0;
+    double  _tduration_secs = 0;
 
     bland::ndarray::dev _device = bland::ndarray::dev::cpu;
 
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 43d9f78..d874c24 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -483,6 +483,7 @@ double bliss::scan::tsamp() const {
 }
 void bliss::scan::set_tsamp(double tsamp) {
     _tsamp = tsamp;
+    _tduration_secs = _ntsteps * _tsamp;
 }
 
 double bliss::scan::tstart() const {
-- 
2.43.0


From 8ffe6652bcdd6d8fc9759a937c18883e3402589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 97/98] fix: evaluating a deferred array without data is an
 exception

data() and mask() of the channels of a results file, which hold none,
dereferenced a null pointer.
---
 bland/bland/ndarray_deferred.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray_deferred.cpp b/bland/bland/ndarray_deferred.cpp
index caed8af..60dcc6a 100644
--- a/bland/bland/ndarray_deferred.cpp
+++ b/bland/bland/ndarray_deferred.cpp
@@ -3,6 +3,8 @@
 
 #include <fmt/format.h>
 
+#include <stdexcept>
+
 using namespace bland;
 
 
@@ -21,7 +23,7 @@ bland::ndarray_deferred::ndarray_deferred(ndarray pod)
 
 ndarray_deferred bland::ndarray_deferred::to(bland::ndarray::dev device) {
     _device = device;
-    if (std::holds_alternative<ndarray>(*_deferred_data)) {
+    if (_deferred_data != nullptr && std::holds_alternative<ndarray>(*_deferred_data)) {
         auto unmemoized_array = std::get<ndarray>(*_deferred_data);
         auto on_device = unmemoized_array.to(_device.value());
         _deferred_data = std::make_shared<std::variant<bland::ndarray, std::function<bland::ndarray ()>>>(on_device);
@@ -38,6 +40,9 @@ ndarray_deferred bland::ndarray_deferred::to(std::string_view dev_str) {
 bland::ndarray_deferred::operator ndarray() {
     // TODO: to make thread-safe, we need a lock unless it's OK to execute
     // twice in a race
+    if (_deferred_data == nullptr) {
+        throw std::runtime_error("ndarray_deferred: there is no data to evaluate");
+    }
     bland::ndarray actual_data;
     if (std::holds_alternative<std::function<ndarray()>>(*_deferred_data)) {
         actual_data = std::get<std::function<ndarray()>>(*_deferred_data)();
@@ -57,6 +62,9 @@ bland::ndarray_deferred::operator ndarray() {
 }
 
 std::string bland::ndarray_deferred::repr() const {
+    if (_deferred_data == nullptr) {
+        return "ndarray_deferred (no data)";
+    }
     if (std::holds_alternative<ndarray>(*_deferred_data)) {
         return std::get<ndarray>(*_deferred_data).repr();
     } else {
-- 
2.43.0


From c1e3f8e106d6330a855c1821cb09a98fa51028b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 98/98] fix: reading from the least offset is refused without
 overflowing

---
 bliss/file_types/h5_filterbank_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index a6d7471..36909f1 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -317,7 +317,9 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
     if (count.empty()) {
         count = shape;
         for (size_t dim = 0; dim < shape.size() && dim < offset.size(); ++dim) {
-            count[dim] -= offset[dim];
+            if (offset[dim] > 0) { // a negative one is refused below
+                count[dim] -= offset[dim];
+            }
         }
     }
     if (offset.size() != shape.size() || count.size() != shape.size()) {
-- 
2.43.0

