From 72a937df6486d87aa8214926f3bfc627bcbeac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 001/118] fix: slice counts partial strides, resolves negative
 indices from the end and rejects invalid ranges

---
 bland/bland/ops/ops.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..cb556d7 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -165,15 +165,19 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     ndarray_slice sliced(a);
 
+    if (stride <= 0) {
+        throw std::invalid_argument("Invalid stride for slice (must be positive)");
+    }
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
-    } else if (start > a.size(dim)) {
-        throw std::out_of_range("Invalid start for stride (begins beyond the end)");
+        start = a.size(dim) + start;
+    }
+    if (start < 0 || start > a.size(dim)) {
+        throw std::out_of_range("Invalid start for slice (outside of the array)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
@@ -188,7 +192,8 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    // a partial last stride still selects its first element
+    sliced._tensor.shape[dim] = (end - start + stride - 1) / stride;
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From 1b55996578dc859ebf669dbc04312295b029519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 002/118] fix: ndarray::size rejects negative axes instead of
 reading before the shape

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..7b8675e 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -181,7 +181,7 @@ std::vector<int64_t> bland::ndarray::shape() const {
 }
 
 int64_t bland::ndarray::size(int64_t axis) const {
-    if (axis < _tensor.ndim) {
+    if (axis >= 0 && axis < _tensor.ndim) {
         return _tensor.shape[axis];
     } else {
         throw std::invalid_argument("bad axis for ndim");
-- 
2.43.0


From ef25a2d9e5adb2fb1c2e7d5e7874a4aa6cc25ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 003/118] fix: squeeze keeps the offset of the squeezed axis

---
 bland/bland/ndarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 7b8675e..d033fc5 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -670,6 +670,10 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    // The squeezed axis may be a slice which doesn't start at 0, that offset still applies
+    if (!new_offsets.empty()) {
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From d36599b579a9751d11d1ef3aa479a8422f412337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 004/118] fix: reshape of a sliced or strided view regroups
 strides correctly or reports that it would need a copy

---
 bland/bland/ndarray.cpp | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index d033fc5..ee90ee3 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -600,25 +600,38 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         // This won't always be right and I think sometimes it might be required to make
         // a copy. That's what pytorch does if the new shape isn't compatible due to strides
         int64_t new_ndim = new_shape.size();
+        // Number of dims changing means we need to update strides. Walk both shapes from the last dim, matching runs of
+        // old and new dims with the same number of elements. A run of old dims can only be regrouped without a copy when
+        // its elements are evenly spaced.
+        auto    new_strides = std::vector<int64_t>(new_ndim, 1);
+        int64_t new_axis    = new_ndim - 1;
+        int64_t old_axis    = _tensor.ndim - 1;
+        while (old_axis >= 0 && num_elements > 0) {
+            if (_tensor.shape[old_axis] == 1) {
+                --old_axis;
+                continue;
+            }
+            int64_t old_run = _tensor.shape[old_axis];
+            int64_t spacing = _tensor.strides[old_axis];
+            int64_t new_run = 1;
+            while (new_axis >= 0 && new_run < old_run) {
+                new_strides[new_axis] = spacing * new_run;
+                new_run *= new_shape[new_axis--];
+                while (new_run > old_run && old_axis > 0) {
+                    --old_axis;
+                    if (_tensor.shape[old_axis] != 1 && _tensor.strides[old_axis] != spacing * old_run) {
+                        throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+                    }
+                    old_run *= _tensor.shape[old_axis];
+                }
+            }
+            --old_axis;
+        }
         // We can collapse all offsets to the last dimension
         auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
+        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
         _tensor._offsets   = new_offsets;
 
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
-        }
         _tensor._strides_ownership = new_strides;
         _tensor.strides            = _tensor._strides_ownership.data();
         _tensor.ndim               = new_ndim;
-- 
2.43.0


From 904bffa8c716f4d5cb061f02a54d1ec9068de09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 005/118] fix: compute_broadcast_shape aligns trailing dims and
 rejects incompatible shapes instead of reading past the input shape

---
 .../include/internal/shape_helpers.cpp         | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..8ec4a5c 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -56,17 +56,17 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    if (shape.size() > out_shape.size()) {
+        throw std::invalid_argument(fmt::format("Shape {} cannot be broadcast to {}.", shape, out_shape));
+    }
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+    // Dims align from the last one. Missing leading dims and dims of size 1 stretch to the output
+    size_t offset = out_shape.size() - shape.size();
+    for (size_t i = 0; i < shape.size(); ++i) {
+        if (shape[i] != out_shape[i + offset] && shape[i] != 1) {
+            throw std::invalid_argument(fmt::format("Shape {} cannot be broadcast to {}.", shape, out_shape));
         }
     }
 
-    return broadcast_shape;
+    return out_shape;
 }
-- 
2.43.0


From b79794e98d65be1c8abe7b9498e5dc845219ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 006/118] fix: broadcasting an array in unary operations and
 copy repeats its size 1 dims instead of reading past them

---
 bland/bland/ops/cpu/elementwise_unary_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..f61259c 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,9 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
+    // strides depend on which dims of a are stretched, so they need the shape before it is broadcast
     a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape   = compute_broadcast_shape(a_shape, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
-- 
2.43.0


From 53fd77d8b529cbf178db8c638e361b4d0c93835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 007/118] fix: subtract, multiply and comparisons broadcast
 their left operand like add and divide do

---
 bland/bland/ops/cpu/arithmetic_cpu.cpp |  6 ++++--
 bland/bland/ops/cpu/comparison_cpu.cpp | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..922e546 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray_slice.hpp"
 
 #include "internal/dispatcher.hpp"
+#include "internal/shape_helpers.hpp"
 #include "elementwise_binary_op.hpp"
 #include "elementwise_scalar_op.hpp"
 
@@ -25,7 +26,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +74,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +119,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +164,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +209,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +257,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From ca2770d793a6cd178254410685a98b3bf0ef3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 008/118] fix: comparisons with the scalar on the left compare
 in the given order

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 922e546..0936f79 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -13,6 +13,10 @@
 using namespace bland;
 using namespace bland::cpu;
 
+/**
+ * When the scalar is on the left the array is the first argument of the kernel, so the mirrored comparison is used
+*/
+
 /**
  * greater than
 */
@@ -20,7 +24,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -68,7 +72,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -113,7 +117,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -158,7 +162,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From 02bdf04e89cfd67311f81c28a63622038b665b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 009/118] fix: scalar - array and scalar / array compute in the
 given order

---
 bland/bland/ndarray.cpp                       |  7 ++++--
 bland/bland/ops/cpu/arithmetic_cpu.hpp        |  9 ++++++++
 bland/bland/ops/cpu/arithmetic_cpu_impl.hpp   | 13 +++++++++++
 bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp | 22 +++++++++++++++++++
 4 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index ee90ee3..1285852 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -5,6 +5,9 @@
 #include "bland/ops/ops.hpp" // to, fill
 #include <bland/config.hpp>
 
+#include "ops/cpu/arithmetic_cpu.hpp"
+#include "ops/device_dispatch.hpp"
+
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 #include <fmt/std.h>
@@ -479,7 +482,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return device_dispatch(cpu::rsubtract_cpu<T>, nullptr, rhs, lhs);
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +572,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return device_dispatch(cpu::rdivide_cpu<T>, nullptr, rhs, lhs);
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
diff --git a/bland/bland/ops/cpu/arithmetic_cpu.hpp b/bland/bland/ops/cpu/arithmetic_cpu.hpp
index a2a999f..6d778c7 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.hpp
@@ -21,6 +21,15 @@ ndarray multiply_cpu(ndarray a, T b);
 template <typename T>
 ndarray divide_cpu(ndarray a, T b);
 
+/**
+ * b - a and b / a for a scalar b
+*/
+template <typename T>
+ndarray rsubtract_cpu(ndarray a, T b);
+
+template <typename T>
+ndarray rdivide_cpu(ndarray a, T b);
+
 } // namespace cpu
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
index 9bf25a9..8593eee 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
@@ -49,6 +49,19 @@ template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) { return static_cast<Out>(a / b); }
 };
 
+/**
+ * Operand order swapped subtraction and division, for a scalar on the left of an array
+*/
+struct elementwise_rsubtract_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b - a); }
+};
+
+struct elementwise_rdivide_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b / a); }
+};
+
 
 template <typename Out, typename A>
 struct elementwise_copy_op {
diff --git a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
index baa8213..c3d29f5 100644
--- a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
@@ -85,3 +85,25 @@ template ndarray bland::cpu::divide_cpu<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::cpu::divide_cpu<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::cpu::divide_cpu<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::cpu::divide_cpu<uint64_t>(ndarray a, uint64_t b);
+
+// Subtracts from a scalar...
+template <typename T>
+ndarray bland::cpu::rsubtract_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_rsubtract_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::rsubtract_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::rsubtract_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::rsubtract_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::rsubtract_cpu<uint32_t>(ndarray a, uint32_t b);
+
+// Divides a scalar...
+template <typename T>
+ndarray bland::cpu::rdivide_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_rdivide_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::rdivide_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::rdivide_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::rdivide_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::rdivide_cpu<uint32_t>(ndarray a, uint32_t b);
-- 
2.43.0


From fa8b78317d288917f0673db6553b4c9c4c825d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 010/118] fix: mean and stddev of integer arrays accumulate in
 double instead of the integer output type

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..1ab08de 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -52,10 +52,8 @@ struct mean_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
-        accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
@@ -165,8 +163,7 @@ struct masked_mean_impl {
             throw std::runtime_error("mask_mean: dims of a shape does not match dims of mask shape");
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
@@ -276,8 +273,7 @@ struct stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -402,8 +398,7 @@ struct masked_stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -658,8 +653,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
-- 
2.43.0


From e61678cfe2429417ac587ffbc962c7dacad56cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 011/118] fix: masked reductions read the mask with its own
 layout and require uint8 masks

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 1ab08de..ba0d736 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -145,7 +145,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -174,11 +174,13 @@ struct masked_mean_impl {
             int64_t          elements_in_mean = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -374,7 +376,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -416,11 +418,13 @@ struct masked_stddev_impl {
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -629,7 +633,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -671,11 +675,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From f345c411be24c8610fc548d42c211e5c83088c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 012/118] fix: masked stddev clamps the round-off of a zero
 variance instead of returning NaN

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index ba0d736..5df70d8 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -453,7 +453,7 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max(0.0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -711,7 +711,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max(0.0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 090a9bff57c9141852e54920d532f7adae4d3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 013/118] fix: var and masked_var leave the variance, not the
 stddev, in the given output

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From cf86388a1b2f993662f5681ec58575cebd06c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 014/118] fix: median converts integer arrays to float instead
 of reinterpreting their bytes

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 5df70d8..57621b4 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -891,7 +891,7 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
 
-    auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
+    auto x_copy = bland::ndarray(x.shape(), ndarray::datatype::float32, x.device());
     x_copy = cpu::copy(x, x_copy);
     auto x_data = x_copy.data_ptr<float>();
     // Compute the position of the median
-- 
2.43.0


From 2b451096a7cbaf0d4e87eb067bba7d7364bffe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 015/118] fix: mean_stddev honours the layout of its stddev
 output and the datatype of its arrays

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 57621b4..bb46f61 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -496,6 +496,11 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     using in_datatype  = float;
     using out_datatype = float;
 
+    if (a.dtype() != ndarray::datatype::float32 || out_mean.dtype() != ndarray::datatype::float32 ||
+        out_stddev.dtype() != ndarray::datatype::float32) {
+        return std::make_pair(cpu::mean(a, out_mean, reduced_axes), cpu::stddev(a, out_stddev, reduced_axes));
+    }
+
     if (reduced_axes.empty()) {
         for (int axis = 0; axis < a.ndim(); ++axis) {
             reduced_axes.push_back(axis);
@@ -566,14 +571,15 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
 
         // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
         int64_t out_linear_index = 0;
+        int64_t out_stddev_linear_index = 0;
         for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
-            out_linear_index +=
-                    out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+            out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+            out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
         }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
         out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -608,6 +614,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
     using in_datatype = float;
     using out_datatype = float;
 
+    if (a.dtype() != ndarray::datatype::float32 || out_mean.dtype() != ndarray::datatype::float32 ||
+        out_stddev.dtype() != ndarray::datatype::float32) {
+        return std::make_pair(cpu::masked_mean(a, mask, out_mean, reduced_axes), cpu::masked_stddev(a, mask, out_stddev, reduced_axes));
+    }
+
         if (reduced_axes.empty()) {
             for (int axis = 0; axis < a.ndim(); ++axis) {
                 reduced_axes.push_back(axis);
@@ -702,8 +713,10 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
             int64_t out_linear_index = 0;
+            int64_t out_stddev_linear_index = 0;
             for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
                 out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
             }
 
             if (elements_in_dev == 0) {
@@ -711,7 +724,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max(0.0, accum_x2 / elements_in_dev - mean*mean)));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(std::max(0.0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From b6d79fb9c835db9a2bc680e3e973df4cf83a10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 016/118] fix: unknown datatype names are rejected instead of
 leaving an uninitialized datatype

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 1285852..f03798b 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -63,6 +63,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::runtime_error(fmt::format("Unknown datatype '{}'", dtype_str));
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
-- 
2.43.0


From b279eb641e20e8651832e975d38b77c416e883a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 017/118] fix: cudamanaged and cudahost device names are not
 taken for cuda

---
 bland/bland/ndarray.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index f03798b..4c1eaa8 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -105,12 +105,6 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
-        device_type = DLDeviceType::kDLCUDA;
-        device_id   = 0;
-        if (dev_str.size() > 4 && dev_str[4] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(5)));
-        }
     } else if (dev_str.substr(0, 11) == "cudamanaged") {
         device_type = DLDeviceType::kDLCUDAManaged;
         device_id   = 0;
@@ -123,6 +117,12 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
         if (dev_str.size() > 8 && dev_str[8] == ':') {
             device_id = std::stoi(std::string(dev_str.substr(9)));
         }
+    } else if (dev_str.substr(0, 4) == "cuda") {
+        device_type = DLDeviceType::kDLCUDA;
+        device_id   = 0;
+        if (dev_str.size() > 4 && dev_str[4] == ':') {
+            device_id = std::stoi(std::string(dev_str.substr(5)));
+        }
     } else {
         throw std::runtime_error("Device type not supported in bland yet");
 	}
-- 
2.43.0


From eb414db33f72e556ea558c80690e50c53772cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 018/118] fix: scalarize of a sliced array reads the element of
 the slice

---
 bland/bland/ndarray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 4c1eaa8..3da8cbb 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -225,8 +225,9 @@ T bland::ndarray::scalarize() const {
     }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
+    auto offsets  = cpu_copy.offsets();
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    return cpu_copy.data_ptr<T>()[std::accumulate(offsets.begin(), offsets.end(), int64_t{0})];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From 2c4dc6d8aab2c1b18419a67c5d0eb4ad739fb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 019/118] fix: arange includes the last partial step of [start,
 end) and is empty for ranges that lead away from end

---
 bland/bland/ops/creators.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..68c2143 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray.hpp"
 #include "bland/ndarray_slice.hpp"
 
+#include <cmath>
 #include <random>
 #include <stdexcept>
 #include <type_traits>
@@ -12,7 +13,19 @@ using namespace bland;
 
 template <typename START_TYPE, typename END_TYPE, typename STEP_TYPE>
 ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType dtype, DLDevice device) {
-    auto number_steps  = static_cast<int64_t>((end - start) / step);
+    if (step == 0) {
+        throw std::invalid_argument("arange: step must not be 0");
+    }
+    // [start, end) includes the last, possibly partial, step and is empty when the step leads away from end
+    int64_t number_steps = 0;
+    if ((step > 0) == (start < end) && start != end) {
+        if constexpr (std::is_floating_point<STEP_TYPE>::value) {
+            number_steps = static_cast<int64_t>(std::ceil((end - start) / step));
+        } else {
+            int64_t span = static_cast<int64_t>(end) - static_cast<int64_t>(start);
+            number_steps = span / static_cast<int64_t>(step) + (span % static_cast<int64_t>(step) != 0);
+        }
+    }
     auto aranged_array = ndarray({number_steps}, dtype, device);
 
     switch (dtype.code) {
-- 
2.43.0


From 8d27c4348893290194a3eab8fad3f9c447cab8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 020/118] fix: linspace of integers spans the interval for any
 number of steps and direction

---
 bland/bland/ops/creators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 68c2143..289ecbb 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -232,7 +232,9 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    // integer items are evenly spaced over the interval too, so the spacing itself must not be truncated
+    using step_type = std::conditional_t<std::is_floating_point<T>::value, T, double>;
+    auto step       = (static_cast<step_type>(end) - static_cast<step_type>(start)) / static_cast<step_type>(number_steps);
 
     switch (dtype.code) {
     case kDLFloat: {
-- 
2.43.0


From 3243808b3961f800564dd5676d9628a595ae898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 021/118] fix: borrowing a dlpack tensor keeps its own shape
 and strides, and honours byte offset and omitted strides

---
 bland/bland/bland_tensor_internals.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..93bd5a9 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,8 +30,16 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    if (other_tensor.dl_tensor.strides != nullptr) {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    } else {
+        // dlpack allows omitting the strides of a compact row-major tensor
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.ndim, 1);
+        for (int dim = other_tensor.dl_tensor.ndim - 2; dim >= 0; --dim) {
+            _strides_ownership[dim] = _strides_ownership[dim + 1] * _shape_ownership[dim + 1];
+        }
+    }
     DLTensor::strides  = _strides_ownership.data();
 
     // dlpack can't support offsets, so they must be 0
@@ -39,9 +47,9 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
+    // Elements are addressed from the data pointer, so fold in the offset of the first one
+    DLTensor::data        = static_cast<char *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
+    DLTensor::byte_offset = 0;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From e8b674c497966f9084c17a47fde3000b238f61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 022/118] fix: assigning an array which borrows dlpack data
 keeps the data

---
 bland/bland/bland_tensor_internals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 93bd5a9..4ffca02 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -181,7 +181,8 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        // As in the copy constructor: data borrowed from another framework is not in _data_ownership
+        this->data            = other.data;
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0


From 18a7efdcb7c70ae90efe788a67297cc907e91856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 023/118] fix: dlpack export of a slice starts at the slice,
 and its deleter also frees the managed tensor

---
 bland/bland/bland_tensor_internals.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 4ffca02..cbf94a8 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -203,22 +203,6 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
-
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
     DLManagedTensor *tensor = new DLManagedTensor;
@@ -228,6 +212,10 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
     // Dynamically allocate a new blandDLTensor to co-own underlying data
     auto context_owner  = new blandDLTensor(*this);
     tensor->dl_tensor   = *context_owner;
+    // dlpack has a single offset, to the first element
+    for (const auto &offset : _offsets) {
+        tensor->dl_tensor.byte_offset += offset * (DLTensor::dtype.bits / 8);
+    }
     tensor->manager_ctx = context_owner;
 
     tensor->deleter = [](DLManagedTensor *self) {
@@ -235,6 +223,7 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
         // we need to check the refcounts before just deleting I think
         auto context = static_cast<blandDLTensor *>(self->manager_ctx);
         delete context;
+        delete self;
     };
     return tensor;
 }
-- 
2.43.0


From eaf33e1a35a57b2549874cdec0ef10ad395b9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 024/118] fix: raw array files hold items of the array's dtype,
 errors are reported and partial items do not overflow the array

---
 bland/bland/ops/cpu/ops_cpu.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..e1eb690 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -11,21 +11,21 @@
 #include "bland/ndarray.hpp"
 
 #include <fstream>
+#include <string>
 
 
 using namespace bland;
 using namespace bland::cpu;
 
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    using file_dtype = float;
-    
-    std::ofstream out_file(file_path.data(), std::ios::binary);
+    std::ofstream out_file(std::string(file_path), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
 
-    // do a typed dispatch :shrug:
-    auto x_data = x.data_ptr<file_dtype>(); // TODO: templatize and dispatch
+    // values are written as they are in memory, so only the size of an item matters
+    auto x_data     = x.data_ptr<char>();
+    auto item_bytes = x.dtype().bits / 8;
     auto x_shape = x.shape();
     auto x_strides = x.strides();
     auto x_offset = x.offsets();
@@ -37,8 +37,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
-        auto val = x_data[x_linear_index];
-        out_file.write(reinterpret_cast<const char*>(&val), sizeof(file_dtype));
+        out_file.write(x_data + x_linear_index * item_bytes, item_bytes);
 
         // Increment the multi-dimensional index
         for (int i = nd_index.size() - 1; i >= 0; --i) {
@@ -52,10 +51,13 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         }
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("Error writing array to file.");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-    std::ifstream in_file(file_path.data(), std::ios::binary);
+    std::ifstream in_file(std::string(file_path), std::ios::binary);
     if (!in_file) {
         throw std::runtime_error("Could not open file for reading.");
     }
@@ -66,7 +68,11 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     int64_t numel = file_length_bytes / (dtype.bits/8);
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
-    in_file.read(x_ptr, file_length_bytes);
+    // a partial item at the end of the file is not part of the array
+    in_file.read(x_ptr, numel * (dtype.bits/8));
+    if (!in_file) {
+        throw std::runtime_error("Error reading array from file.");
+    }
 
     return x;
 }
-- 
2.43.0


From f5391a8394d6e6e073d14e2bf19848dae8e98716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 025/118] fix: power spectrum of even length or sliced arrays
 stays inside its arrays

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..e9a01f6 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -1,4 +1,5 @@
 #include "frequency_cpu_impl.hpp"
+#include "ops_cpu.hpp" // copy
 
 #include "internal/dispatcher.hpp"
 
@@ -22,7 +23,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
-    auto in_ptr = x.data_ptr<float>();
+    // fftw reads dense data
+    auto dense = ndarray(x.shape(), x.dtype(), x.device());
+    cpu::copy(x, dense);
+    auto in_ptr = dense.data_ptr<float>();
     auto out_ptr = out.data_ptr<float>();
 
     fftwf_complex *fftdata = (fftwf_complex*) fftwf_malloc(sizeof(fftwf_complex) * half_N);
@@ -38,8 +42,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
-        if (i != 0) {
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
+        if (i != 0 && rev_index >= 0) {
             out_ptr[rev_index] = mag_squared;
         }
 \
-- 
2.43.0


From 9a565dd550b03425df928ab2551827d1bfc291aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 026/118] fix: inferring the channelization of scans with less
 than 2**18 channels does not divide by zero

---
 bliss/core/scan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..ec1f7b2 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -65,7 +65,8 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
     // behavior of existing pipelines is to imitate 64 coarse channels of 1M fine channels each)
     // The "reasonable size" is dependent on the number of time steps and the vram we're OK consuming
     // at once but the more important thing is having safe defaults for current telescopes of interest
-    {
+    // (each of these needs at least one whole coarse channel)
+    if (number_fine_channels >= 1<<18) {
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
@@ -79,7 +80,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         }
     }
 
-    {
+    if (number_fine_channels >= 1000000) {
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-- 
2.43.0


From 5b91dacd415a8820bb2b77d5dfc2547f5beeaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 027/118] fix: the coarse channel one past the end of a scan is
 rejected

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index ec1f7b2..d6adebf 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -213,7 +213,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -273,7 +273,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From c0c293c2bc38591afa5543002afad76515aa080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 028/118] fix: a scan built from coarse channels takes over all
 of their metadata and their channelization

---
 bliss/core/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index d6adebf..0e98db3 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -112,6 +112,16 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
     _source_name = first_cc->source_name();
+    _machine_id = first_cc->_machine_id;
+    _nbits = first_cc->_nbits.value_or(0);
+    _nifs = first_cc->nifs();
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
+    _data_type = first_cc->data_type();
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
+    _fine_channels_per_coarse = first_cc->nchans();
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
 }
-- 
2.43.0


From baef4f13c7d62014a7508e6d577b93016ecb8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 029/118] fix: slices that reach outside of the scan are
 rejected

---
 bliss/core/scan.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 0e98db3..e13bfb7 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -379,9 +379,12 @@ bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t coun
         count = get_number_coarse_channels() - start_channel;
     }
 
+    if (start_channel < 0 || count < 0 || start_channel + count > get_number_coarse_channels()) {
+        throw std::out_of_range("ERROR: slice_scan_channels: requested coarse channels are not in this scan");
+    }
+
     auto sliced_scan = *this;
 
-    // what are implications of negative numbers here?
     sliced_scan._coarse_channel_offset += start_channel;
     sliced_scan._num_coarse_channels = count;
 
-- 
2.43.0


From ec36ffeae4027a87199b653e383e4f142b3b4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 030/118] fix: scans are consistent when fch1, foff and
 channels match, not when they differ

---
 bliss/core/cadence.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..741e328 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -52,16 +52,19 @@ bool bliss::observation_target::validate_scan_consistency() {
     double fch1;
     double foff;
     int nchans;
+    int number_coarse_channels;
     if (!_scans.empty()) {
         fch1 = _scans[0].fch1();
         foff = _scans[0].foff();
         nchans = _scans[0].nchans();
+        number_coarse_channels = _scans[0].get_number_coarse_channels();
     }
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
-            fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans) ||
+            (sc.get_number_coarse_channels() != number_coarse_channels)) {
+            fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans`, number of coarse channels does not match");
             return false;
         }
     }
@@ -134,20 +137,23 @@ bool bliss::cadence::validate_scan_consistency() {
     double fch1;
     double foff;
     int nchans;
+    int number_coarse_channels;
     bool found_valid_scan = false;
     for (auto &obs: _observations) {
         if (!obs._scans.empty()) {
             fch1 = obs._scans[0].fch1();
             nchans = obs._scans[0].nchans();
             foff = obs._scans[0].foff();
+            number_coarse_channels = obs._scans[0].get_number_coarse_channels();
             found_valid_scan = true;
             break;
         }
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
-                fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans ||
+                sc.get_number_coarse_channels() != number_coarse_channels) {
+                fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans`, number of coarse channels does not match");
                 return false;
             }
         }
-- 
2.43.0


From cbad426b57adca354a9a9dffdb7f6883d3aaf99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 031/118] fix: an observation target without scans has no
 channels to look up instead of reading past its scans

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 741e328..5151964 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -73,7 +73,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -82,7 +82,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
-- 
2.43.0


From c4a5075a3ec8a5bcaa458ac1c9769a3efa7f8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 032/118] fix: slices of observation targets and cadences keep
 the target name and device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 5151964..7e6681c 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -94,6 +94,8 @@ bliss::observation_target bliss::observation_target::slice_observation_channels(
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     return target_coarse_channel;
 }
 
@@ -190,6 +192,7 @@ bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
+    cadence_coarse_channel._device = _device;
     return cadence_coarse_channel;
 }
 
-- 
2.43.0


From dfafe820b9cdc052fadfbe8c0ac48bf955cd3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 033/118] fix: sigma clipping starts from a uint8 mask like
 every mask is, not one of the type of the data

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From 941be232530d578960bf5dea81ed160f52622c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 034/118] fix: flagging keeps flags that are already set
 instead of adding them into other flags

---
 bliss/flaggers/include/flaggers/combine_flags.hpp | 15 +++++++++++++++
 bliss/flaggers/magnitude.cpp                      |  3 ++-
 bliss/flaggers/sigmaclip.cpp                      |  3 ++-
 bliss/flaggers/spectral_kurtosis.cpp              |  3 ++-
 4 files changed, 21 insertions(+), 3 deletions(-)
 create mode 100644 bliss/flaggers/include/flaggers/combine_flags.hpp

diff --git a/bliss/flaggers/include/flaggers/combine_flags.hpp b/bliss/flaggers/include/flaggers/combine_flags.hpp
new file mode 100644
index 0000000..4d888c1
--- /dev/null
+++ b/bliss/flaggers/include/flaggers/combine_flags.hpp
@@ -0,0 +1,15 @@
+#pragma once
+
+#include <bland/ndarray.hpp>
+#include <bland/ops/ops.hpp>
+
+namespace bliss {
+
+/**
+ * return the bitwise or of the flags in both masks, which leaves flags that are already set alone
+ */
+inline bland::ndarray combine_flags(bland::ndarray mask, bland::ndarray flags) {
+    return mask + flags - (mask & flags);
+}
+
+} // namespace bliss
diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..3dc2a21 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -1,6 +1,7 @@
 
 #include <core/flag_values.hpp>
 #include <flaggers/magnitude.hpp>
+#include <flaggers/combine_flags.hpp>
 
 #include <bland/ops/ops.hpp>
 
@@ -20,7 +21,7 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    mask = combine_flags(mask, magnitude_mask);
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 9e58dbb..37577e9 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -1,4 +1,5 @@
 #include <flaggers/sigmaclip.hpp>
+#include <flaggers/combine_flags.hpp>
 
 #include <core/flag_values.hpp>
 
@@ -39,7 +40,7 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = combine_flags(rfi_flags, rfi);
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..b49fd3b 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -1,4 +1,5 @@
 #include <flaggers/spectral_kurtosis.hpp>
+#include <flaggers/combine_flags.hpp>
 
 #include <estimators/spectral_kurtosis.hpp>
 #include <core/flag_values.hpp>
@@ -36,7 +37,7 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = combine_flags(rfi_flags, rfi);
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
-- 
2.43.0


From b70b480a8bdefeb62a2b0009d6fc1ee2fa574401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 035/118] fix: magnitude flags of a scan are added to its
 pipeline instead of to copies that are thrown away

---
 bliss/flaggers/magnitude.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 3dc2a21..3bd24d5 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -39,20 +39,16 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) {
+        return flag_magnitude(cc, threshold);
+    });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) {
+        return flag_magnitude(cc);
+    });
     return fil_data;
 }
 
-- 
2.43.0


From d548b29507a9dbf7b4dcb9c80f31ffc1c4a5ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 036/118] fix: equalizing a scan is added to its pipeline
 instead of to copies that are thrown away

---
 bliss/preprocess/passband_static_equalize.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From c4ddb81d355a79caf7ecbeee77c151e66462e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 037/118] fix: flagging the filter rolloff leaves the given
 mask alone and flags nothing for a width of 0

---
 bliss/flaggers/filter_rolloff.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..02ad416 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -1,4 +1,5 @@
 #include "flaggers/filter_rolloff.hpp"
+#include <flaggers/combine_flags.hpp>
 
 #include <core/flag_values.hpp>
 
@@ -12,13 +13,16 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        auto rfi_flags = bland::zeros(mask.shape(), bland::ndarray::datatype::uint8, mask.device());
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        return rfi_flags;
+        if (one_sided_channels > 0) {
+            auto edge_flags = bland::ndarray({mask.shape()[0], one_sided_channels}, static_cast<uint8_t>(flag_values::filter_rolloff), bland::ndarray::datatype::uint8, mask.device());
+            bland::slice(rfi_flags, {1, 0, one_sided_channels}) = edge_flags;
+            bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = edge_flags;
+        }
+        return combine_flags(mask, rfi_flags);
     });
     
     cc_data.set_mask(deferred_rfi_mask);
-- 
2.43.0


From 4b164acd2fb2e2e1513b62be626bce57c8cbc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 038/118] fix: integrating over no drift rates or in steps of 0
 is rejected instead of dividing by 0 or reading past the end

---
 bliss/drift_search/integrate_drifts.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 9cc63db..5a364e3 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,13 +11,22 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <stdexcept>
+
 using namespace bliss;
 
 std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, double foff, double tsamp, integrate_drifts_options options) {
     auto maximum_drift_span = time_steps - 1;
 
+    if (options.rate_step_size == 0) {
+        throw std::invalid_argument("integrate_drifts: the drift rate step size can not be 0");
+    }
+
     // Convert the drift options to specific drift info
     auto number_drifts = (options.high_rate - options.low_rate) / options.rate_step_size;
+    if (number_drifts <= 0) {
+        throw std::invalid_argument("integrate_drifts: there are no drift rates to search");
+    }
     std::vector<frequency_drift_plane::drift_rate> drift_rate_info;
     drift_rate_info.reserve(number_drifts);
     for (int drift_index = 0; drift_index < number_drifts; ++drift_index) {
-- 
2.43.0


From 4e873924e7bcda301e696063d662849e74b0a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 039/118] fix: a single time step is integrated without drift
 instead of with an infinite or undefined slope

---
 bliss/drift_search/integrate_drifts.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 5a364e3..0cf0212 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -39,6 +39,9 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
 
         // The actual slope of that drift (number channels / time)
         auto m = static_cast<float>(drift_channels) / static_cast<float>(maximum_drift_span);
+        if (maximum_drift_span <= 0) {
+            m = 0; // there is no time to drift over in a single time step
+        }
 
         rate.drift_rate_slope = m;
         rate.drift_rate_Hz_per_sec = m * foff * 1e6 / tsamp;
-- 
2.43.0


From 31de1c1bae66ed9fd1f8191983806965de2eb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 040/118] fix: drift integration of views of arrays integrates
 the view instead of the start of its buffer

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..a330f9d 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -9,6 +9,8 @@
 #include <fmt/format.h>
 
 #include <cmath> // std::round, std::abs
+#include <cstdint>
+#include <numeric> // std::accumulate
 
 using namespace bliss;
 
@@ -17,11 +19,16 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                                          bland::ndarray    rfi_mask,
                                          std::vector<frequency_drift_plane::drift_rate> drift_rates,
                                          integrate_drifts_options options) {
-    auto spectrum_ptr     = spectrum_grid.data_ptr<float>();
+    // data_ptr is where the array's buffer starts, the array itself starts at its offsets into that
+    auto start_offset = [](const bland::ndarray &a) {
+        auto offsets = a.offsets();
+        return std::accumulate(offsets.begin(), offsets.end(), static_cast<int64_t>(0));
+    };
+    auto spectrum_ptr     = spectrum_grid.data_ptr<float>() + start_offset(spectrum_grid);
     auto spectrum_strides = spectrum_grid.strides();
     auto spectrum_shape   = spectrum_grid.shape();
 
-    auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>();
+    auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>() + start_offset(rfi_mask);
     auto rfi_strides = rfi_mask.strides();
     auto rfi_shape   = rfi_mask.shape();
 
-- 
2.43.0


From 7e2a2ed869dc1c69c3925d7122fd7fd65200aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 041/118] fix: drifts beyond the width of the spectrum
 integrate nothing instead of memory out of bounds

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index a330f9d..0705f6d 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -74,11 +74,10 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
 
                     int64_t spectrum_freq_slice_start  = channel_offset;
                     int64_t spectrum_freq_slice_end    = number_channels;
-                    if (spectrum_freq_slice_start > spectrum_shape[1]) {
-                        fmt::print("ERROR: drift integration might be going out of bounds. Report this condition");
-                    }
-
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
+                    if (number_channels <= 0) {
+                        continue; // every channel drifted out of the spectrum
+                    }
                     size_t drift_plane_index =
                             drift_index * drift_plane_strides[0] + drift_freq_slice_start * drift_plane_strides[1];
                     size_t spectrum_index  = t * spectrum_strides[0] + spectrum_freq_slice_start * spectrum_strides[1];
@@ -128,6 +127,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
+                    if (number_channels <= 0) {
+                        continue; // every channel drifted out of the spectrum
+                    }
                     size_t drift_plane_index =
                             drift_index * drift_plane_strides[0] + drift_freq_slice_start * drift_plane_strides[1];
                     size_t spectrum_index = t * spectrum_strides[0] + spectrum_freq_slice_start * spectrum_strides[1];
-- 
2.43.0


From 9359c0ce099a9eee3afb444e3bbb091131eece17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 042/118] fix: counts of flags along a drift saturate instead
 of wrapping around to 0

---
 .../kernels/drift_integration_cpu.cpp         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 0705f6d..b7eb396 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -10,6 +10,7 @@
 
 #include <cmath> // std::round, std::abs
 #include <cstdint>
+#include <limits>
 #include <numeric> // std::accumulate
 
 using namespace bliss;
@@ -47,6 +48,13 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     auto lowsk_rfi_strides = rfi_in_drift.low_spectral_kurtosis.strides();
     auto highsk_rfi_strides = rfi_in_drift.high_spectral_kurtosis.strides();
 
+    // Counts stay at the most they can hold instead of wrapping around
+    auto count_flag = [](uint8_t &count) {
+        if (count < std::numeric_limits<uint8_t>::max()) {
+            ++count;
+        }
+    };
+
     bland::fill(drift_plane, 0.0f);
     auto drift_plane_ptr     = drift_plane.data_ptr<float>();
     auto drift_plane_strides = drift_plane.strides();
@@ -92,15 +100,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                count_flag(lowsk_rfi_ptr[lowsk_index]);
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                count_flag(highsk_rfi_ptr[highsk_index]);
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                count_flag(rolloff_rfi_ptr[filtrolloff_index]);
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
@@ -144,15 +152,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                count_flag(lowsk_rfi_ptr[lowsk_index]);
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                count_flag(highsk_rfi_ptr[highsk_index]);
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                count_flag(rolloff_rfi_ptr[filtrolloff_index]);
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
-- 
2.43.0


From a1a0bb66ed45ab9ee6fb3584f3d8cae0b6abcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 043/118] fix: connected components join neighbors on all sides
 instead of only towards lower channels and drifts

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..f0db299 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -168,8 +168,8 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                         this_component.locations.push_back(idx);
 
                         // Then add all of the neighbors as candidates
-                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                                 auto neighbor_coord = idx;
 
                                 neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 114ce4414074b5d772d639d1d35ac4d6bb13f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 044/118] fix: a component has the flags counted at its peak,
 not the ones where its search started

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index f0db299..223e01c 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From 4bb868f04fde19303a1601779479e6bc949769a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 045/118] fix: components of a view of a drift plane are found
 in the view instead of at the start of its buffer

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 223e01c..d17fbb5 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
+#include <numeric>
 #include <queue>
 
 using namespace bliss;
@@ -92,7 +93,10 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
         throw std::runtime_error("find_components_above_threshold: dedrifted doppler spectrum was not float. Only cpu "
                                  "float is supported right now");
     }
-    auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
+    // data_ptr is where the array's buffer starts, the array itself starts at its offsets into that
+    auto doppler_spectrum_offsets = doppler_spectrum.offsets();
+    auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>() +
+                                 std::accumulate(doppler_spectrum_offsets.begin(), doppler_spectrum_offsets.end(), static_cast<int64_t>(0));
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
 
-- 
2.43.0


From e3f132b7a12fcfd01c62b29fc3b9ca6e307036b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 046/118] fix: a local maximum is not required to be greater
 than itself, which none is

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..ab4cfe9 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // not a neighbor, and never greater than itself
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From d3e8af1de00350218d3913695927656563610c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 047/118] fix: a local maximum is compared with the neighbors
 on all sides instead of only the lower channels and drifts

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index ab4cfe9..01b24da 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -53,8 +53,8 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
             if (candidate_snr > snr_threshold) {
                 // 4. Check if it is greater than surrounding neighborhood
                 bool neighborhood_max = true;
-                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                         if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
                             continue; // not a neighbor, and never greater than itself
                         }
-- 
2.43.0


From 64dbfd627f6bc580066033e38cb55031f78bc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 048/118] fix: local maxima of a view of a drift plane are
 found in the view instead of at the start of its buffer

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 01b24da..b6bc4ae 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -5,6 +5,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 
+#include <numeric>
 #include <stdexcept>
 
 using namespace bliss;
@@ -17,7 +18,10 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                                             float                            snr_threshold,
                                             int                              neighbor_l1_dist) {
 
-    auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
+    // data_ptr is where the array's buffer starts, the array itself starts at its offsets into that
+    auto doppler_spectrum_offsets = doppler_spectrum.offsets();
+    auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>() +
+                                 std::accumulate(doppler_spectrum_offsets.begin(), doppler_spectrum_offsets.end(), static_cast<int64_t>(0));
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
 
-- 
2.43.0


From ca8ef575531c4dcf69d7ed2469053d612797d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 049/118] fix: a hit has the number of time steps it was found
 over instead of an undefined one

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..ef7ea22 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -30,6 +30,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         this_hit.rate_index       = c.index_max.drift_index;
         this_hit.rfi_counts       = c.rfi_counts;
         this_hit.start_freq_index = c.index_max.frequency_channel;
+        this_hit.time_span_steps  = integration_length;
 
         // Start frequency in Hz is bin * Hz/bin
         auto freq_offset        = dedrifted_scan.foff() * this_hit.start_freq_index;
-- 
2.43.0


From 7de8dc9bf64aaec2a7c850d0667c7807c1e43a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 050/118] fix: a cadence without observations has no events
 instead of reading past the end of the observations

---
 bliss/drift_search/event_search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..7451773 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -76,6 +76,9 @@ struct hit_distance {
 std::vector<event> bliss::event_search(cadence cadence_with_hits) {
     hit_distance       distance;
     std::vector<event> detected_events;
+    if (cadence_with_hits._observations.empty()) {
+        return detected_events; // there is no target to find events in
+    }
 
     // TODO: should we find "matches" between same-scan as part of filtering
 
-- 
2.43.0


From 6b308c713b8a4038b4706cac503a9b9eacb56f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 051/118] fix: serialize the start time of hits in double
 precision

startTime is a Float32, whose resolution is 512 s for an MJD in seconds
---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 7 ++++++-
 bliss/file_types/hit.capnp                   | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..e902f9d 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -19,6 +19,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setPower(this_hit.power);
     signal_builder.setIncoherentPower(this_hit.power);
     signal_builder.setStartTime(this_hit.start_time_sec);
+    signal_builder.setStartTimeSeconds(this_hit.start_time_sec);
     signal_builder.setDurationSeconds(this_hit.duration_sec);
 
     signal_builder.setBandwidth(this_hit.bandwidth);
@@ -39,7 +40,11 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
 
-    this_hit.start_time_sec = signal_reader.getStartTime();
+    this_hit.start_time_sec = signal_reader.getStartTimeSeconds();
+    if (this_hit.start_time_sec == 0) {
+        // written before startTimeSeconds was part of the schema
+        this_hit.start_time_sec = signal_reader.getStartTime();
+    }
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
diff --git a/bliss/file_types/hit.capnp b/bliss/file_types/hit.capnp
index 7af468c..1667589 100644
--- a/bliss/file_types/hit.capnp
+++ b/bliss/file_types/hit.capnp
@@ -47,10 +47,12 @@ struct Signal {
   # This is available in the stamps files, but not in the hits files.
   incoherentPower @9 :Float32;
 
-  startTime @11 :Float32; # MJ in seconds
+  startTime @11 :Float32; # MJ in seconds (too coarse for MJD in seconds, kept for existing files, see startTimeSeconds)
   durationSeconds @12 :Float32; # duration of hit in seconds
   bandwidth @13 :Float32;
   binwidth @14 :Float32;
+
+  startTimeSeconds @15 :Float64; # MJD in seconds
 }
 
 # The Filterbank contains a smaller slice of the larger filterbank that we originally
-- 
2.43.0


From 4ccb5c0b33d743c18cb7ba186ca84a5c82fe0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 052/118] fix: serialize the coarse channel number of hits

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index e902f9d..00718de 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -22,6 +22,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setStartTimeSeconds(this_hit.start_time_sec);
     signal_builder.setDurationSeconds(this_hit.duration_sec);
 
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     signal_builder.setBandwidth(this_hit.bandwidth);
     signal_builder.setBinwidth(this_hit.binwidth);
     // These currently aren't in the capn proto definition to be serialized
@@ -48,6 +49,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
     // The following are not (currently) in the capn proto definition
     // this_hit.rfi_counts;
 
-- 
2.43.0


From 9b327efafe5228f4cf564669b7e8a5557ea43b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 053/118] fix: serialize the number of a coarse channel

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 00718de..e82dafd 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -73,6 +73,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     md_builder.setTstart(cc.tstart());
     md_builder.setNumTimesteps(cc.ntsteps());
     md_builder.setNumChannels(cc.nchans());
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
 
     // Serialize out the hits
     auto   hits         = cc.hits();
@@ -107,7 +108,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
+                                          0 /* za_start */,
+                                          md.getCoarseChannel() /* coarse_channel_number */
     );
 
     std::list<hit> deserialized_hits;
-- 
2.43.0


From f335b46ba155ff59d91df019236ed99fbed299c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 054/118] fix: write the hits of coarse channels that were not
 read yet

serializing a scan with a deferred pipeline silently dropped every channel
(and the channel metadata) that had not been read before
---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index e82dafd..5b3ec16 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -146,7 +146,8 @@ void bliss::detail::bliss_scan_to_capnp_scan(Scan::Builder &scan_builder, scan s
     auto serialized_coarse_channels = scan_builder.initCoarseChannels(number_coarse_channels);
 
     for (int cc_index=0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = scan_with_hits.peak_coarse_channel(cc_index);
+        // hits may not have been asked for yet, so channels have to be read rather than only peeked at
+        auto cc = scan_with_hits.read_coarse_channel(cc_index);
         if (cc != nullptr) {
             auto cc_builder = serialized_coarse_channels[cc_index];
             bliss_coarse_channel_to_capnp_coarse_channel_message(cc_builder, *cc);
-- 
2.43.0


From 3b639e8c5d3b7faf0364798756335c81e5586529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 055/118] fix: do not read past the end of file path views

---
 bliss/file_types/detail/raii_file_helpers.cpp | 5 +++--
 bliss/file_types/detail/raii_file_helpers.hpp | 5 ++++-
 bliss/file_types/h5_filterbank_file.cpp       | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..bc1d630 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -6,13 +6,14 @@
 using namespace bliss::detail;
 
 bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_path) {
+    const std::string path(file_path); // a string_view need not be null terminated
     struct stat buffer;
-    bool file_exists = (stat(file_path.data(), &buffer) == 0);
+    bool file_exists = (stat(path.c_str(), &buffer) == 0);
     if (file_exists) {
         fmt::print("WARN: writing to file {} that already exists. Existing contents will be overwritten.\n", file_path);
     }
 
-    _fd = open(file_path.data(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+    _fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
     if (_fd == -1) {
         auto str_err = strerror(errno);
         auto err_msg =
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..3800230 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -3,6 +3,9 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
+#include <string>
+#include <string_view>
+
 #include <errno.h>  // how to interpret errors from POSIX file
 #include <fcntl.h>  // for 'open' and 'O_WRONLY'
 #include <unistd.h> // for 'close'
@@ -21,7 +24,7 @@ struct raii_file_for_write {
 struct raii_file_for_read {
     int _fd;
     raii_file_for_read(std::string_view file_path) {
-        _fd = open(file_path.data(), O_RDONLY);
+        _fd = open(std::string(file_path).c_str(), O_RDONLY); // a string_view need not be null terminated
         if (_fd == -1) {
             auto str_err = strerror(errno);
             auto err_msg =
diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..18bfa90 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -179,7 +179,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
     fmt::print("INFO: HDF5 looking for filter plugins in: \n{}", filter_paths);
     #endif
 
-    _h5_file_handle = H5::H5File(file_path.data(), H5F_ACC_RDONLY);
+    _h5_file_handle = H5::H5File(std::string(file_path), H5F_ACC_RDONLY);
     try {
         _h5_data_handle = _h5_file_handle.openDataSet("data");
     } catch (H5::FileIException h5_data_exception) {
-- 
2.43.0


From 262c4b3b4188edf514471d7f891a4df227db79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 056/118] fix: keep the full state of a hit when pickling

frequency, drift rate and power were rounded to float and the time and the
coarse channel were lost
---
 bliss/core/hit.cpp              |  8 +++++++-
 bliss/core/include/core/hit.hpp | 13 ++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..83fe121 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -20,7 +20,10 @@ hit::state_tuple bliss::hit::get_state() const {
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
+                           binwidth,
+                           start_time_sec,
+                           duration_sec,
+                           coarse_channel_number
                            // rfi_counts,
     );
 }
@@ -35,4 +38,7 @@ void bliss::hit::set_state(state_tuple state) {
     snr                   = std::get<6>(state);
     bandwidth             = std::get<7>(state);
     binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<9>(state);
+    duration_sec          = std::get<10>(state);
+    coarse_channel_number = std::get<11>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..dcfab85 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,14 +81,17 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
                                    double /*bandwidth*/,
-                                   int64_t /*binwidth*/
+                                   int64_t /*binwidth*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
+                                   int64_t /*coarse_channel_number*/
                                    // rfi /*rfi_counts*/,
                                    >;
 
-- 
2.43.0


From e6545a0e8cd4aa2850647bee666273f6ef5e2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 057/118] fix: hits of different coarse channels are not equal

---
 bliss/core/include/core/hit.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index dcfab85..ca72ff3 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -40,7 +40,8 @@ struct hit {
                snr == other.snr &&
                bandwidth == other.bandwidth &&
                binwidth == other.binwidth &&
-               rfi_counts == other.rfi_counts;
+               rfi_counts == other.rfi_counts &&
+               coarse_channel_number == other.coarse_channel_number;
     }
 
     bool operator<(const hit& other) const {
@@ -77,7 +78,10 @@ struct hit {
         if (binwidth != other.binwidth) {
             return binwidth < other.binwidth;
         }
-        return rfi_counts < other.rfi_counts;
+        if (rfi_counts != other.rfi_counts) {
+            return rfi_counts < other.rfi_counts;
+        }
+        return coarse_channel_number < other.coarse_channel_number;
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-- 
2.43.0


From ebe725efea0885c8e053210e4f0e30e9e1e32aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 058/118] fix: report unknown hits file formats as
 invalid_argument

the message had no argument for its replacement field, so formatting it threw first
---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From 4127aae105a3f3e559f89b238c15d61884943c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 059/118] fix: report truncated hits files and read errors

every exception was taken for the end of the file, so hits were dropped silently
---
 bliss/file_types/cpnp_files.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..cc4f059 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -13,6 +13,7 @@
 #include <capnp/message.h>
 #include <capnp/serialize.h>
 #include <kj/exception.h>
+#include <kj/io.h>
 
 #include <fmt/core.h>
 #include <fmt/format.h>
@@ -43,19 +44,17 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
     std::list<hit> hits;
 
-    while (true) {
-        try {
-            capnp::StreamFdMessageReader message(in_file._fd);
-            auto                         hit_reader    = message.getRoot<Hit>();
-            auto                         signal_reader = hit_reader.getSignal();
+    kj::FdInputStream              fd_stream(in_file._fd);
+    kj::BufferedInputStreamWrapper stream(fd_stream);
+    // Only a clean end of file ends the list, a damaged message or a read error is an error
+    while (stream.tryGetReadBuffer().size() > 0) {
+        capnp::InputStreamMessageReader message(stream);
+        auto                            hit_reader    = message.getRoot<Hit>();
+        auto                            signal_reader = hit_reader.getSignal();
 
-            auto this_hit = detail::capnp_signal_message_to_bliss_hit(signal_reader);
+        auto this_hit = detail::capnp_signal_message_to_bliss_hit(signal_reader);
 
-            hits.push_back(this_hit);
-        } catch (kj::Exception &e) {
-            // We've reached the end of the file.
-            break;
-        }
+        hits.push_back(this_hit);
     }
 
     return hits;
-- 
2.43.0


From 99bda95e5ed6cba33f86da0c8ba8c2779a332021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 060/118] fix: report truncated events files and read errors

every exception was taken for the end of the file, so events were dropped silently
---
 bliss/file_types/events_file.cpp | 34 +++++++++++++++-----------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..a9e3b2b 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -14,6 +14,7 @@
 #include <capnp/message.h>
 #include <capnp/serialize.h>
 #include <kj/exception.h>
+#include <kj/io.h>
 
 #include <fmt/core.h>
 #include <fmt/format.h>
@@ -47,25 +48,22 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    while (true) {
-
-        try {
-            capnp::StreamFdMessageReader message(in_file._fd);
-
-            auto event_reader      = message.getRoot<Event>();
-            auto deserialized_hits = event_reader.getHits();
-            // deserialized_event
-            event new_event;
-            for (auto deser_hit = deserialized_hits.begin(); deser_hit != deserialized_hits.end(); ++deser_hit) {
-                auto signal_reader = deser_hit->getSignal();
-                hit  new_hit       = detail::capnp_signal_message_to_bliss_hit(signal_reader);
-                new_event.hits.push_back(new_hit);
-            }
-            events.push_back(new_event);
-        } catch (kj::Exception &e) {
-            // We've reached the end of the file.
-            break;
+    kj::FdInputStream              fd_stream(in_file._fd);
+    kj::BufferedInputStreamWrapper stream(fd_stream);
+    // Only a clean end of file ends the list, a damaged message or a read error is an error
+    while (stream.tryGetReadBuffer().size() > 0) {
+        capnp::InputStreamMessageReader message(stream);
+
+        auto event_reader      = message.getRoot<Event>();
+        auto deserialized_hits = event_reader.getHits();
+        // deserialized_event
+        event new_event;
+        for (auto deser_hit = deserialized_hits.begin(); deser_hit != deserialized_hits.end(); ++deser_hit) {
+            auto signal_reader = deser_hit->getSignal();
+            hit  new_hit       = detail::capnp_signal_message_to_bliss_hit(signal_reader);
+            new_event.hits.push_back(new_hit);
         }
+        events.push_back(new_event);
     }
 
     return events;
-- 
2.43.0


From 2cd07ce861b506bc7942e9cacf34505e97ef934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 061/118] fix: write dat files completely or report an error

---
 bliss/file_types/dat_file.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..86a8536 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -4,11 +4,15 @@
 
 #include <fmt/format.h>
 
+#include <cerrno>
 #include <cstdio>
+#include <cstring>
 #include <ext/stdio_filebuf.h>
 #include <ios>
 #include <regex>
+#include <stdexcept>
 #include <string> // getline
+#include <string_view>
 
 using namespace bliss;
 
@@ -43,6 +47,20 @@ std::string format_degrees_to_sexagesimal(double src_dej) {
     return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, std::abs(dec_degrees), dec_arcminutes, dec_arcseconds);
 }
 
+// write may be interrupted, may transfer only a part and may fail
+static void write_all(int fd, std::string_view contents) {
+    while (!contents.empty()) {
+        auto written = write(fd, contents.data(), contents.size());
+        if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw std::runtime_error(fmt::format("write_scan_hits_to_dat_file: could not write ({})", strerror(errno)));
+        }
+        contents.remove_prefix(written);
+    }
+}
+
 template<typename Container>
 std::string format_hits_to_dat_list(Container hits) {
     std::string table_string;
@@ -130,9 +148,9 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
+    write_all(output_file._fd, header);
     auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    write_all(output_file._fd, table_contents);
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
-- 
2.43.0


From ad4d53a7079143a5f1293eb61e9b67be8dc44c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 062/118] fix: do not close the descriptor of a dat file twice

---
 bliss/file_types/dat_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 86a8536..dc8a61e 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -156,7 +156,8 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(in_file._fd, std::ios::in);
+    // the buffer closes the descriptor it is given, so it gets one of its own
+    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(dup(in_file._fd), std::ios::in);
     auto in_stream = std::istream(&in_buff);
 
     std::string line;
-- 
2.43.0


From 399000082834aac80344a55d801846558c19e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 063/118] fix: name the SEFD column in the header of dat files

the hit lines have it, so every later column was misnamed
---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index dc8a61e..c83ce08 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -137,7 +137,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From 61cd76ded49e9497ae333c60c08e60e02aff3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 064/118] fix: do not repeat the unit of the right ascension in
 dat files

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index c83ce08..d05c244 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -133,7 +133,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# File ID: {}\n"
                         "# -------------------------- o --------------------------\n"
                         "# Source:{}\n"
-                        "# MJD: {}\tRA: {}s\tDEC:{}\n"
+                        "# MJD: {}\tRA: {}\tDEC:{}\n"
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-- 
2.43.0


From a166b0ff2e2e617f3cfa8bb4a0725b1368b9ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 065/118] fix: convert the channel width read from a dat file
 to MHz

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index d05c244..fcfd9ee 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -176,7 +176,7 @@ scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
             auto dej_sexagesimal = match[3];
         } else if (std::regex_search(line, match, tstart_regex)) {
             deserialized_scan.set_tsamp(std::stod(match[1]));
-            deserialized_scan.set_foff(std::stod(match[2]));
+            deserialized_scan.set_foff(std::stod(match[2]) * 1e-6); // the file has Hz
             // scan_data.max_drift_rate = match[3];
             // scan_data.obs_length = std::stod(match[4]);
         } else if (std::regex_search(line, match, data_regex)) {
-- 
2.43.0


From 909289b8c5670f30e7b9f954f3fcef612db1edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 066/118] fix: round coordinates in dat files without reaching
 60 minutes or seconds

---
 bliss/file_types/dat_file.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index fcfd9ee..2766a6e 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -5,6 +5,8 @@
 #include <fmt/format.h>
 
 #include <cerrno>
+#include <cmath>
+#include <cstdint>
 #include <cstdio>
 #include <cstring>
 #include <ext/stdio_filebuf.h>
@@ -23,12 +25,11 @@ using namespace bliss;
  * used especially for right ascenion (raj) from filterbank files
  */
 std::string format_archours_to_sexagesimal(double src_raj) {
-    double ra_deg = src_raj * 15.0;
-
-    // Convert RA to sexagesimal
-    int ra_hours = static_cast<int>(ra_deg / 15.0);
-    int ra_minutes = static_cast<int>((ra_deg / 15.0 - ra_hours) * 60.0);
-    double ra_seconds = ((ra_deg / 15.0 - ra_hours) * 60.0 - ra_minutes) * 60.0;
+    // Convert RA to sexagesimal, rounding once so that minutes and seconds stay below 60
+    int64_t ra_milliseconds = std::llround(src_raj * 3600 * 1000);
+    int64_t ra_hours = ra_milliseconds / 3600000;
+    int64_t ra_minutes = ra_milliseconds / 60000 % 60;
+    double ra_seconds = (ra_milliseconds % 60000) / 1000.0;
 
     return fmt::format("{:02}h{:02}m{:06.3f}s", ra_hours, ra_minutes, ra_seconds);
 }
@@ -39,12 +40,14 @@ std::string format_archours_to_sexagesimal(double src_raj) {
  * used especially for declination (dej) from filterbank files
  */
 std::string format_degrees_to_sexagesimal(double src_dej) {
-    int dec_degrees = static_cast<int>(src_dej);
-    int dec_arcminutes = static_cast<int>((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0);
-    double dec_arcseconds = ((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0 - dec_arcminutes) * 60.0;
+    // round once so that arcminutes and arcseconds stay below 60
+    int64_t dec_centiarcseconds = std::llround(std::abs(src_dej) * 3600 * 100);
+    int64_t dec_degrees = dec_centiarcseconds / 360000;
+    int64_t dec_arcminutes = dec_centiarcseconds / 6000 % 60;
+    double dec_arcseconds = (dec_centiarcseconds % 6000) / 100.0;
     char dec_sign = src_dej >= 0 ? '+' : '-';
 
-    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, std::abs(dec_degrees), dec_arcminutes, dec_arcseconds);
+    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, dec_degrees, dec_arcminutes, dec_arcseconds);
 }
 
 // write may be interrupted, may transfer only a part and may fail
-- 
2.43.0


From 3333a840ef43d89f9d30587fd8dfb8fb19db9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 067/118] fix: report errors while reading dat files

---
 bliss/file_types/dat_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 2766a6e..1d0efb5 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -203,5 +203,8 @@ scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
 
         }
     }
+    if (in_stream.bad()) {
+        throw std::runtime_error(fmt::format("read_scan_hits_from_dat_file: could not read ({})", file_path));
+    }
     return deserialized_scan;
 }
-- 
2.43.0


From 26457ccda057ba37913d4f0a8a7a1d016b2263fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 068/118] fix: convert attributes of every numeric type

8 bit and big endian attributes were read as if they had the requested type,
which left bytes unset or wrote past the value
---
 bliss/file_types/h5_filterbank_file.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 18bfa90..8909130 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -77,10 +77,17 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            // Any other size or byte order, hdf5 converts when reading
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            int64_t val;
+            attr.read(H5::PredType::NATIVE_INT64, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            throw std::invalid_argument(fmt::format("attr {} is not a number", key));
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From 2c09c4b968cbcd613789b4e347ddc755d7db41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 069/118] fix: report attributes that are not strings as
 invalid_argument

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 8909130..1dc8d50 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -141,7 +141,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
-- 
2.43.0


From 046c1754320fd8a512e12739b4b195366f24d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 070/118] fix: do not keep the padding of fixed length strings

the source name had the padding bytes of its attribute appended
---
 bliss/file_types/h5_filterbank_file.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 1dc8d50..f598ca3 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -118,12 +118,15 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
         // Check if the attribute is a byte string
         if (dtype.getClass() == H5T_STRING && !dtype.isVariableStr()) {
             // ATA pipeline emits fixed-length bytestrings for the source_name
-            hsize_t size = attr.getInMemDataSize();
-            std::vector<uint8_t> val(size);
-            attr.read(dtype, val.data());
-
-            // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            // they may be padded to their length, which hdf5 removes when reading as a null terminated string
+            H5::StrType terminated_type;
+            terminated_type.copy(dtype);
+            terminated_type.setStrpad(H5T_STR_NULLTERM);
+            terminated_type.setSize(dtype.getSize() + 1);
+            std::vector<char> val(dtype.getSize() + 1);
+            attr.read(terminated_type, val.data());
+
+            return std::string(val.data());
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
             char* val;
-- 
2.43.0


From c46f17f1355640bd98f2eaa99cf9c01ff22d803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 071/118] fix: read lists of fixed length strings

their characters were dereferenced as pointers
---
 bliss/file_types/h5_filterbank_file.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index f598ca3..30db47b 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -158,6 +158,21 @@ template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
         H5::Attribute             attr = _h5_data_handle.openAttribute(key);
+        if (attr.getTypeClass() == H5T_STRING && !attr.getDataType().isVariableStr()) {
+            // The strings themselves are in the file rather than references to them
+            H5::StrType string_type;
+            string_type.copy(attr.getDataType());
+            string_type.setStrpad(H5T_STR_NULLTERM);
+            string_type.setSize(attr.getDataType().getSize() + 1);
+            std::vector<char> fixed_length_vals(attr.getSpace().getSimpleExtentNpoints() * string_type.getSize());
+            attr.read(string_type, fixed_length_vals.data());
+
+            std::vector<std::string> vals;
+            for (size_t i = 0; i < fixed_length_vals.size(); i += string_type.getSize()) {
+                vals.emplace_back(fixed_length_vals.data() + i);
+            }
+            return vals;
+        }
         std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
         attr.read(attr.getDataType(), vals_as_read_from_h5.data());
 
-- 
2.43.0


From 21da4bac26552861d515b7da6306523dbf439cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 072/118] fix: do not read past the dimension labels

---
 bliss/file_types/h5_filterbank_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 30db47b..374efda 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -263,6 +263,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     dataspace.getSimpleExtentDims(dims.data());
 
     auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+    if (dim_labels.size() < dims.size()) {
+        throw std::invalid_argument("There are fewer dimension labels than dimensions in data");
+    }
     // tuples of size, initialized state, index. This will validate the dimensions
     // fit our expectations:
     // * there are 3 dimensions with unique labels of time, feed_id, frequency
-- 
2.43.0


From 0ef022992d7c03eb638394d86ea993de1f653173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 073/118] fix: accept extra dimensions of size 1 rather than
 those of any other size

the test was inverted, and the selection had no entries for the extra dimensions
---
 bliss/file_types/h5_filterbank_file.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 374efda..67596e2 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -285,7 +285,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
@@ -346,6 +346,17 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
     std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
     std::vector<hsize_t> count_hsize(count.begin(), count.end());
 
+    // The file may have more dimensions of size 1
+    if (number_dims > static_cast<int>(shape.size())) {
+        auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+        for (int dim = 0; dim < number_dims; ++dim) {
+            if (dim_labels[dim] != "time" && dim_labels[dim] != "feed_id" && dim_labels[dim] != "frequency") {
+                offset_hsize.insert(offset_hsize.begin() + dim, 0);
+                count_hsize.insert(count_hsize.begin() + dim, 1);
+            }
+        }
+    }
+
     dataspace.selectHyperslab(H5S_SELECT_SET, count_hsize.data(), offset_hsize.data());
 
     // Define the memory dataspace to receive the read data
-- 
2.43.0


From 6a42b95b0417b055ef0edaed836175cf983447da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 074/118] fix: derive a missing nchans from the shape of the
 data

as intended, opening such a file failed
---
 bliss/core/scan.cpp                     | 5 +++++
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index e13bfb7..7a936c4 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -184,8 +184,10 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         // we can verify that nbits is 32 before assuming data_type)
     }
     // int64_t     nchans;
+    bool has_nchans = false;
     try {
         _nchans = fb_file.read_data_attr<int64_t>("nchans");
+        has_nchans = true;
     } catch (std::invalid_argument &e) {
         // nchans is not specified, derive from datashape
     }
@@ -198,6 +200,9 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
 
     // This is expected to be [time, feed, freq]
     auto data_shape = _h5_file_handle->get_data_shape();
+    if (!has_nchans) {
+        _nchans = data_shape[2];
+    }
     if (data_shape.size() == 3) {
         _ntsteps = data_shape[0];
         _tduration_secs = _ntsteps * _tsamp;
diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 67596e2..3122a1f 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -304,7 +304,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     if (std::get<1>(freq_bins) == false) {
         throw std::invalid_argument("Could not find a frequency dimension in dimension labels");
     }
-    if (std::get<0>(time_steps) == read_data_attr<int64_t>("nchans") && std::get<0>(freq_bins) != read_data_attr<int64_t>("nchans")) {
+    if (_h5_data_handle.attrExists("nchans") && std::get<0>(time_steps) == read_data_attr<int64_t>("nchans") && std::get<0>(freq_bins) != read_data_attr<int64_t>("nchans")) {
         static bool warning_issued = false;
         if (!warning_issued) {
             fmt::print("WARN h5_filterbank_file: the DIMENSION_LABELS appear out of order, time dimension matches nchans\n");
-- 
2.43.0


From f7feb8343059897750fd1cedc4beb6a278a0efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 075/118] fix: set nbits and nifs when the file does not have
 them

they were left uninitialized
---
 bliss/core/scan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 7a936c4..2d85140 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -182,6 +182,7 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
     // int64_t     nchans;
     bool has_nchans = false;
@@ -196,6 +197,7 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
+        _nifs = fb_file.get_data_shape()[1];
     }
 
     // This is expected to be [time, feed, freq]
-- 
2.43.0


From 93ccf25a5d6be01ddbbd61d7314cf3832e438bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 076/118] fix: print unknown filterbank versions that contain
 braces

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 3122a1f..ff97bce 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -246,7 +246,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
                         "versions list {}. Trying to read it anyway!\n",
                         filterbank_version,
                         supported_filterbank_versions);
-            fmt::print(warning);
+            fmt::print("{}", warning);
         }
     } catch (std::invalid_argument &e) {
         fmt::print("WARN: the h5 file does not have a 'VERSION' attribute to indicate what version of FILTERBANK this is. Will assume it is compatible and resume.\n");
-- 
2.43.0


From e817dc9fea271b80523b9cf508bdc5f3ea0faaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 077/118] fix: read the mask of the whole file by default

---
 bliss/file_types/h5_filterbank_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index ff97bce..51e75f6 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -406,6 +406,12 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     return mask_grid;
     // } else {
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
+        if (count.empty()) {
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
         return mask_grid;
-- 
2.43.0


From 4518603b364ba4f7cc158d1e23dbfb5eb6c1030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 078/118] fix: do not write the hits of every scan to the
 default file of the first

---
 bliss/bliss_find_hits.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..91e3dd3 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,23 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
+            // Each scan gets a file of its own when none is given
+            auto scan_output_path = output_path;
+            auto scan_output_format = output_format;
             if (output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From e04b26c5d05a379465edd1f1fd16ac3ee90647e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 079/118] fix: bliss_find_hits does not succeed when its
 pipeline or output fails

---
 bliss/bliss_find_hits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 91e3dd3..9ebc4bd 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -164,6 +164,7 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
 }
-- 
2.43.0


From dfcec8b6dad7fd3555db1945bc628a401c781f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 080/118] fix: do not truncate numpy floating point scalars to
 integers in python

---
 bland/python/pybland.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index d45827b..1d3f336 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -139,6 +139,10 @@ void bind_pybland(nb::module_ m) {
     m.def("multiply", [](nb::ndarray<> a, nb::ndarray<> b) {
         return bland::multiply(nb_to_bland(a), nb_to_bland(b));
     });
+    // overloads are tried in order when the scalar needs a conversion, e.g. numpy scalars, and the integers would truncate
+    m.def("multiply", [](nb::ndarray<> a, float b) {
+        return bland::multiply(nb_to_bland(a), b);
+    });
     m.def("multiply", [](nb::ndarray<> a, uint8_t b) {
         return bland::multiply(nb_to_bland(a), b);
     });
@@ -163,9 +167,6 @@ void bind_pybland(nb::module_ m) {
     // m.def("multiply", [](nb::ndarray<> a, int64_t b) {
     //     return bland::multiply(nb_to_bland(a), b);
     // });
-    m.def("multiply", [](nb::ndarray<> a, float b) {
-        return bland::multiply(nb_to_bland(a), b);
-    });
     // m.def("multiply", [](nb::ndarray<> a, double b) {
     //     return bland::multiply(nb_to_bland(a), b);
     // });
@@ -175,6 +176,10 @@ void bind_pybland(nb::module_ m) {
         return bland::divide(nb_to_bland(a), nb_to_bland(b));
     });
 
+    // overloads are tried in order when the scalar needs a conversion, e.g. numpy scalars, and the integers would truncate
+    m.def("less_than", [](nb::ndarray<> a, float b) {
+        return bland::less_than(nb_to_bland(a), b);
+    });
     m.def("less_than", [](nb::ndarray<> a, uint8_t b) {
         return bland::less_than(nb_to_bland(a), b);
     });
@@ -187,13 +192,14 @@ void bind_pybland(nb::module_ m) {
     // m.def("less_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::less_than(nb_to_bland(a), b);
     // });
-    m.def("less_than", [](nb::ndarray<> a, float b) {
-        return bland::less_than(nb_to_bland(a), b);
-    });
     // m.def("less_than", [](nb::ndarray<> a, int64_t b) {
     //     return bland::less_than(nb_to_bland(a), b);
     // });
 
+    // overloads are tried in order when the scalar needs a conversion, e.g. numpy scalars, and the integers would truncate
+    m.def("greater_than", [](nb::ndarray<> a, float b) {
+        return bland::greater_than(nb_to_bland(a), b);
+    });
     m.def("greater_than", [](nb::ndarray<> a, uint8_t b) {
         return bland::greater_than(nb_to_bland(a), b);
     });
@@ -206,9 +212,6 @@ void bind_pybland(nb::module_ m) {
     // m.def("greater_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::greater_than(nb_to_bland(a), b);
     // });
-    m.def("greater_than", [](nb::ndarray<> a, float b) {
-        return bland::greater_than(nb_to_bland(a), b);
-    });
     // m.def("greater_than", [](nb::ndarray<> a, int64_t b) {
     //     return bland::greater_than(nb_to_bland(a), b);
     // });
-- 
2.43.0


From d96b99092a3a1f782ae7364c8108480b869516d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 081/118] fix: make the default stride of slice available in
 python

---
 bland/python/pybland.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 1d3f336..49938e2 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -272,12 +272,12 @@ void bind_pybland(nb::module_ m) {
     /**************
      * Shaping ops
     **************/
-    m.def("slice", [](nb::ndarray<> a, int64_t dim, int64_t start, int64_t end, int64_t stride=1) {
+    m.def("slice", [](nb::ndarray<> a, int64_t dim, int64_t start, int64_t end, int64_t stride) {
         auto our_tensor_type = nb_to_bland(a);
         auto sliced = bland::slice(our_tensor_type, dim, start, end, stride);
         auto r = copy(sliced);
         return r;
-    });
+    }, "a"_a, "dim"_a, "start"_a, "end"_a, "stride"_a=1);
 
     /*********************
      * Frequency analysis
-- 
2.43.0


From 42a4176c5f07de00c93307ff2b59e213966b1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 082/118] fix: provide the ndarray types in whichever python
 module is loaded second

---
 bland/python/pybland.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 49938e2..9586e32 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -14,7 +14,7 @@ using namespace nb::literals;
 bland::ndarray nb_to_bland(nb::ndarray<> t);
 
 
-void bind_pybland(nb::module_ m) {
+void bind_pyndarray(nb::module_ m) {
 
     // Define ndarray type
     auto pyndarray = nb::class_<bland::ndarray>(m, "ndarray");
@@ -74,6 +74,17 @@ void bind_pybland(nb::module_ m) {
     .def_ro("code", &bland::ndarray::datatype::code)
     .def_ro("lanes", &bland::ndarray::datatype::lanes)
     .def("__repr__", &bland::ndarray::datatype::repr);
+}
+
+void bind_pybland(nb::module_ m) {
+
+    // A type can only be registered once, but this is bound in both of the pybland and pybliss modules
+    auto registered_ndarray = nb::type<bland::ndarray>();
+    if (registered_ndarray.is_valid()) {
+        m.attr("ndarray") = registered_ndarray;
+    } else {
+        bind_pyndarray(m);
+    }
 
     m.def("write_to_file", &bland::write_to_file);
 
-- 
2.43.0


From 744c80019129587f6f8b702c999058d91a4d011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 083/118] fix: device_type of an array's device can be read
 from python

---
 bland/python/pybland.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 9586e32..54a66a7 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -63,7 +63,9 @@ void bind_pyndarray(nb::module_ m) {
 
     nb::class_<bland::ndarray::dev>(pyndarray, "dev")
     .def(nb::init<std::string_view>())
-    .def_rw("device_type", &bland::ndarray::dev::device_type)
+    .def_prop_rw("device_type",
+        [](const bland::ndarray::dev &self) { return static_cast<int>(self.device_type); },
+        [](bland::ndarray::dev &self, int device_type) { self.device_type = static_cast<DLDeviceType>(device_type); })
     .def_rw("device_id", &bland::ndarray::dev::device_id)
     .def("__repr__", &bland::ndarray::dev::repr)
     .def("__str__", &bland::ndarray::dev::repr);
-- 
2.43.0


From ee6f4f509ccabfeea79fa6529f8bf28f94c9d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 084/118] fix: compare integers of different signedness by
 value

---
 bland/bland/ops/cpu/comparison_cpu_impl.hpp | 24 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu_impl.hpp b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
index fa38cda..7b2d4df 100644
--- a/bland/bland/ops/cpu/comparison_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
@@ -1,43 +1,57 @@
 #pragma once
 
+#include <cstdint>
 #include <stdexcept>
 #include <type_traits>
 
 
 namespace bland {
 
+/**
+ * Value of a to compare with a value of type Other. Integers of different signedness would be compared after wrapping a
+ * negative one around, so compare those in a type that holds both
+ */
+template <typename Other, typename T>
+static inline auto comparable(const T &a) {
+    if constexpr (std::is_integral_v<T> && std::is_integral_v<Other> && std::is_signed_v<T> != std::is_signed_v<Other>) {
+        return static_cast<int64_t>(a);
+    } else {
+        return a;
+    }
+}
+
 struct greater_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a > b);
+        return static_cast<Out>(comparable<B>(a) > comparable<A>(b));
     }
 };
 
 struct greater_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a >= b);
+        return static_cast<Out>(comparable<B>(a) >= comparable<A>(b));
     }
 };
 
 struct less_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a <= b);
+        return static_cast<Out>(comparable<B>(a) <= comparable<A>(b));
     }
 };
 
 struct less_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a < b);
+        return static_cast<Out>(comparable<B>(a) < comparable<A>(b));
     }
 };
 
 struct equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a == b);
+        return static_cast<Out>(comparable<B>(a) == comparable<A>(b));
     }
 };
 
-- 
2.43.0


From 3f9aba0e31b0de78174df6e515197807a40c40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 085/118] fix: pickling an array in python keeps its elements

---
 bland/python/pybland.hpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 54a66a7..15c1e3d 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -7,6 +7,10 @@
 #include <nanobind/stl/string_view.h>
 #include <nanobind/stl/vector.h>
 #include <nanobind/stl/pair.h>
+#include <nanobind/stl/tuple.h>
+
+#include <algorithm> // std::copy_n
+#include <tuple>
 
 namespace nb = nanobind;
 using namespace nb::literals;
@@ -39,26 +43,27 @@ void bind_pyndarray(nb::module_ m) {
     .def("to", nb::overload_cast<std::string_view>(&bland::ndarray::to))
     .def("size", &bland::ndarray::size)
     .def("__getstate__", [](bland::ndarray &self) {
-        auto dtype = self.dtype();
+        auto dtype  = self.dtype();
         auto device = self.device();
-        size_t bytes_per_elem = self.dtype().bits / 8;
-        auto state_tuple = std::make_tuple(
-            std::vector<int8_t>{
-                self.data_ptr<int8_t>(),
-                self.data_ptr<int8_t>() + self.numel() * bytes_per_elem
-            },
-            std::make_tuple(dtype.bits, dtype.code),
-            std::make_tuple(device.device_type, device.device_id),
-            self.shape(),
-            self.strides(),
-            self.offsets()
+        // strides and offsets describe the memory of this array, the state has the elements alone
+        auto elements = bland::ndarray(self.shape(), dtype);
+        bland::copy(self.to("cpu"), elements);
+        return nb::make_tuple(
+            nb::bytes(elements.data_ptr<char>(), elements.numel() * dtype.bits / 8),
+            nb::make_tuple(dtype.code, dtype.bits),
+            nb::make_tuple(static_cast<int>(device.device_type), device.device_id),
+            self.shape()
         );
-        return state_tuple;
     })
-    .def("__setstate__", [](bland::ndarray &self, std::tuple<std::vector<int8_t>, std::tuple<uint8_t, uint8_t>, std::tuple<DLDeviceType, int>, std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> state_tuple) {
-        // new (&self) bland::ndarray();
-    }
-    )
+    .def("__setstate__", [](bland::ndarray &self, const std::tuple<nb::bytes, std::tuple<uint8_t, uint8_t>, std::tuple<int, int32_t>, std::vector<int64_t>> &state) {
+        const auto &[bytes, dtype, device, shape] = state;
+        auto elements = bland::ndarray(shape, DLDataType{.code = std::get<0>(dtype), .bits = std::get<1>(dtype), .lanes = 1});
+        if (bytes.size() != static_cast<size_t>(elements.numel() * elements.dtype().bits / 8)) {
+            throw std::runtime_error("ndarray: state does not have as many elements as its shape");
+        }
+        std::copy_n(bytes.c_str(), bytes.size(), elements.data_ptr<char>());
+        new (&self) bland::ndarray(elements.to(DLDevice{.device_type = static_cast<DLDeviceType>(std::get<0>(device)), .device_id = std::get<1>(device)}));
+    })
     ;
 
     nb::class_<bland::ndarray::dev>(pyndarray, "dev")
-- 
2.43.0


From 2b9817e40b248f3750d38d85151499ad8894def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 086/118] fix: python objects taken from a list survive
 assignment of another list

---
 bliss/core/include/core/pyblisscore.hpp       | 22 +++++++++++++++++--
 .../include/drift_search/pydrift_search.hpp   |  6 ++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/bliss/core/include/core/pyblisscore.hpp b/bliss/core/include/core/pyblisscore.hpp
index be4f05a..48d16d4 100644
--- a/bliss/core/include/core/pyblisscore.hpp
+++ b/bliss/core/include/core/pyblisscore.hpp
@@ -20,6 +20,20 @@
 namespace nb = nanobind;
 using namespace nb::literals;
 
+/**
+ * Setter of a list member. Elements handed out to python point in to the current list and keep self alive, so the
+ * replaced list is kept as long as self.
+ */
+template <typename C, typename List>
+auto replace_list(List C::*member) {
+    return [member](nb::handle_t<C> self, List value) {
+        auto &list     = nb::inst_ptr<C>(self)->*member;
+        auto  replaced = new List(std::move(list));
+        list           = std::move(value);
+        nb::detail::keep_alive(self.ptr(), replaced, [](void *p) noexcept { delete static_cast<List *>(p); });
+    };
+}
+
 void bind_pycore(nb::module_ m) {
 
     nb::class_<bliss::frequency_drift_plane> pyfrequency_drift_plane(m, "frequency_drift_plane");
@@ -117,7 +131,9 @@ void bind_pycore(nb::module_ m) {
         .def("device", &bliss::observation_target::device)
         .def("set_device", nb::overload_cast<bland::ndarray::dev&, bool>(&bliss::observation_target::set_device), "device"_a, "verbose"_a=true)
         .def("set_device", nb::overload_cast<std::string_view, bool>(&bliss::observation_target::set_device), "device"_a, "verbose"_a=true)
-        .def_rw("scans", &bliss::observation_target::_scans)
+        .def_prop_rw("scans",
+                     [](const bliss::observation_target &self) -> const auto & { return self._scans; },
+                     replace_list(&bliss::observation_target::_scans))
         .def_rw("target_name", &bliss::observation_target::_target_name);
 
     nb::class_<bliss::cadence>(m, "cadence")
@@ -127,7 +143,9 @@ void bind_pycore(nb::module_ m) {
         .def("get_coarse_channel_with_frequency", &bliss::cadence::get_coarse_channel_with_frequency, "frequency"_a)
         .def_prop_ro("number_coarse_channels", &bliss::cadence::get_number_coarse_channels)
         .def("slice_cadence_channels", &bliss::cadence::slice_cadence_channels, "start"_a=0, "count"_a=1)
-        .def_rw("observations", &bliss::cadence::_observations)
+        .def_prop_rw("observations",
+                     [](const bliss::cadence &self) -> const auto & { return self._observations; },
+                     replace_list(&bliss::cadence::_observations))
         .def("device", &bliss::cadence::device)
         .def("set_device", nb::overload_cast<bland::ndarray::dev&, bool>(&bliss::cadence::set_device), "device"_a, "verbose"_a=true)
         .def("set_device", nb::overload_cast<std::string_view, bool>(&bliss::cadence::set_device), "device"_a, "verbose"_a=true);
diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index d64057b..3468d20 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -7,6 +7,8 @@
 #include <nanobind/stl/list.h>
 #include <nanobind/stl/vector.h>
 
+#include <core/pyblisscore.hpp> // replace_list
+
 #include "connected_components.hpp"
 #include "event_search.hpp"
 #include "hit_search.hpp"
@@ -93,7 +95,9 @@ void bind_pydrift_search(nb::module_ m) {
     m.def("hit_search", nb::overload_cast<bliss::cadence, bliss::hit_search_options>(&bliss::hit_search));
 
     nb::class_<bliss::event>(m, "event")
-            .def_rw("hits", &bliss::event::hits)
+            .def_prop_rw("hits",
+                         [](const bliss::event &self) -> const auto & { return self.hits; },
+                         replace_list(&bliss::event::hits))
             .def_rw("starting_frequency_Hz", &bliss::event::starting_frequency_Hz)
             .def_rw("average_power", &bliss::event::average_power)
             .def_rw("average_bandwidth", &bliss::event::average_bandwidth)
-- 
2.43.0


From e7c1fd9a4995920c1beac3040e2af66bd748ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 087/118] fix: a protohit's coordinates are readable in python

---
 .../drift_search/include/drift_search/pydrift_search.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index 3468d20..8de41b6 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -37,9 +37,16 @@ void bind_pydrift_search(nb::module_ m) {
     m.def("integrate_drifts",
           nb::overload_cast<bliss::cadence, bliss::integrate_drifts_options>(&bliss::integrate_drifts));
 
+    nb::class_<bliss::freq_drift_coord>(m, "freq_drift_coord")
+            .def(nb::init<>())
+            .def_rw("drift_index", &bliss::freq_drift_coord::drift_index)
+            .def_rw("frequency_channel", &bliss::freq_drift_coord::frequency_channel);
+
     // General "protohit" class as intermediate between dedrifted clusters of prehits and hits
     nb::class_<bliss::protohit>(m, "protohit")
-            .def_rw("locations", &bliss::protohit::locations)
+            .def_prop_rw("locations",
+                         [](const bliss::protohit &self) -> const auto & { return self.locations; },
+                         replace_list(&bliss::protohit::locations))
             .def_rw("index_max", &bliss::protohit::index_max)
             .def_rw("max_integration", &bliss::protohit::max_integration)
             .def_rw("rfi_counts", &bliss::protohit::rfi_counts);
-- 
2.43.0


From 86f08fc6d4f989f54d594369ae0b1c30d9d1f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 088/118] fix: unpickle and copy events in python

---
 .../include/drift_search/pydrift_search.hpp   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index 8de41b6..4125871 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -113,11 +113,29 @@ void bind_pydrift_search(nb::module_ m) {
             .def_rw("event_start_seconds", &bliss::event::event_start_seconds)
             .def_rw("event_end_seconds", &bliss::event::event_end_seconds)
             .def("__repr__", &bliss::event::repr)
-            .def("__getstate__", [](const bliss::event &self) { return self.hits; })
-            //     .def("__setstate__", [](bliss::event &self, const std::vector<bliss::hit> &state) {
-            //         new (&self) bliss::event{.hits = state};
-            //     })
-            ;
+            .def("__getstate__",
+                 [](const bliss::event &self) {
+                     return std::make_tuple(self.hits,
+                                            self.starting_frequency_Hz,
+                                            self.average_power,
+                                            self.average_bandwidth,
+                                            self.average_snr,
+                                            self.average_drift_rate_Hz_per_sec,
+                                            self.event_start_seconds,
+                                            self.event_end_seconds);
+                 })
+            .def("__setstate__",
+                 [](bliss::event &self,
+                    const std::tuple<std::list<bliss::hit>, double, float, float, float, double, double, double> &state) {
+                     new (&self) bliss::event{std::get<0>(state),
+                                              std::get<1>(state),
+                                              std::get<2>(state),
+                                              std::get<3>(state),
+                                              std::get<4>(state),
+                                              std::get<5>(state),
+                                              std::get<6>(state),
+                                              std::get<7>(state)};
+                 });
 
 
     nb::class_<bliss::filter_options>(m, "filter_options")
-- 
2.43.0


From 5659e5d8bba05c0cbe12252bffa3ba7320117287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 089/118] fix: pickle and copy flag values in python

---
 bliss/flaggers/include/flaggers/pyflaggers.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/bliss/flaggers/include/flaggers/pyflaggers.hpp b/bliss/flaggers/include/flaggers/pyflaggers.hpp
index ee04abb..b2e2f40 100644
--- a/bliss/flaggers/include/flaggers/pyflaggers.hpp
+++ b/bliss/flaggers/include/flaggers/pyflaggers.hpp
@@ -170,19 +170,7 @@ void bind_pyflaggers(nb::module_ m) {
             .value("high_spectral_kurtosis", bliss::flag_values::high_spectral_kurtosis)
             .value("magnitude", bliss::flag_values::magnitude)
             .value("sigma_clip", bliss::flag_values::sigma_clip)
-            .def("__getstate__",
-                 [](const bliss::flag_values &self) {
-                     std::cout << "get state is " << static_cast<int>(self) << std::endl;
-                     return std::make_tuple(static_cast<uint8_t>(self));
-                 })
-            // .def("__setstate__", [](bliss::flag_values &self, const std::tuple<uint8_t> &state) {
-            //       std::cout << "called setstate" << std::endl;
-            //       self = static_cast<bliss::flag_values>(std::get<0>(state));
-            // })
-
-            // .def("__getstate__", [](const bliss::flag_values &self) { return std::string("filter_rolloff"); })
-            .def("__setstate__", [](bliss::flag_values &self, const std::tuple<uint8_t> &state) {
-                std::cout << "called setstate" << std::endl;
-                self = static_cast<bliss::flag_values>(std::get<0>(state));
+            .def("__reduce__", [](nb::handle self) {
+                return nb::make_tuple(self.type(), nb::make_tuple(nb::int_(self)));
             });
-}
\ No newline at end of file
+}
-- 
2.43.0


From 54b29c6abb57aa0176b080fab37903309b245fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 090/118] fix: observation targets read back from hits files
 have their name

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 5b3ec16..85e689c 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -190,13 +190,13 @@ void bliss::detail::bliss_observation_target_to_capnp_observation_target_message
 
 observation_target bliss::detail::capnp_observation_target_message_to_bliss_observation_target(ObservationTarget::Reader &obstarget_reader) {
     auto capnp_scans = obstarget_reader.getScans();
-    observation_target target;
+    std::vector<scan> scans;
 
     for (int scan_index=0; scan_index < capnp_scans.size(); ++scan_index) {
         auto capnp_scan = capnp_scans[scan_index];
-        target._scans.emplace_back(capnp_scan_message_to_bliss_scan(capnp_scan));
+        scans.emplace_back(capnp_scan_message_to_bliss_scan(capnp_scan));
     }
-    return target;
+    return observation_target(scans);
 }
 
 void bliss::detail::bliss_cadence_to_capnp_cadence_message(Cadence::Builder &cadence_builder, cadence cadence_with_hits) {
-- 
2.43.0


From 084a8aa0575e80edb290dcde50dc5487e48ded15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 091/118] fix: default constructed arrays have a defined
 (unsupported) type and device

---
 bland/bland/bland_tensor_internals.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index cbf94a8..7c98061 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -21,6 +21,10 @@ blandDLTensor::blandDLTensor() {
     DLTensor::shape = nullptr; // Should we actually make this valid but 0?
     DLTensor::ndim = 0;
     DLTensor::strides = nullptr;
+    // No elements: neither a type nor a device, so that any use is reported as unsupported
+    DLTensor::dtype       = {};
+    DLTensor::device      = {};
+    DLTensor::byte_offset = 0;
 }
 
 // Effectively a from_dlpack method...
-- 
2.43.0


From cb4a62e803ecc482e6dd90361ce3a4ff38e40a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 092/118] fix: 64 bit element offsets and counts in arrays of
 more than 2^31 elements

---
 bland/bland/include/bland/stride_helper.hpp   |  2 +-
 bland/bland/ndarray.cpp                       |  6 +--
 bland/bland/ops/cpu/assignment_op.hpp         |  2 +-
 bland/bland/ops/cpu/elementwise_binary_op.hpp |  6 +--
 bland/bland/ops/cpu/elementwise_scalar_op.hpp |  8 ++--
 bland/bland/ops/cpu/elementwise_unary_op.hpp  |  4 +-
 bland/bland/ops/cpu/ops_cpu.cpp               |  2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp       | 40 +++++++++----------
 bland/bland/ops/creators.cpp                  |  2 +-
 9 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/bland/bland/include/bland/stride_helper.hpp b/bland/bland/include/bland/stride_helper.hpp
index 2117ee3..b791b76 100644
--- a/bland/bland/include/bland/stride_helper.hpp
+++ b/bland/bland/include/bland/stride_helper.hpp
@@ -17,7 +17,7 @@ struct stride_helper {
 
     int64_t to_linear_offset(const nd_coords &coords) const {
         // TODO compute linear index of curr_coords from shape and stride
-        auto linear_offset = 0;
+        int64_t linear_offset = 0;
         for (int dim = 0; dim < shape.size(); ++dim) {
             linear_offset += coords[dim] * stride[dim]; // TODO: also add offset
         }
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 3da8cbb..8d8940e 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -147,7 +147,7 @@ bland::ndarray::ndarray(std::vector<int64_t> dims, datatype dtype, DLDevice devi
 template <typename T>
 void initialize_memory(T *data, int64_t numel, T value) {
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = value;
     }
 }
@@ -210,7 +210,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
@@ -591,7 +591,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
diff --git a/bland/bland/ops/cpu/assignment_op.hpp b/bland/bland/ops/cpu/assignment_op.hpp
index 4a693ac..42b1dd3 100644
--- a/bland/bland/ops/cpu/assignment_op.hpp
+++ b/bland/bland/ops/cpu/assignment_op.hpp
@@ -22,7 +22,7 @@ ndarray assignment_op(ndarray &out, const S &a) {
     // Current (multi-dimensional) index to read into out
     auto ndim = out_shape.size();
     std::vector<int64_t> nd_index(ndim, 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 1550818..11fbfea 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -40,9 +40,9 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     constexpr int64_t    LAST_DIM_UNROLL_FACTOR = 8;
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_scalar_op.hpp b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
index f1296da..ae511d3 100644
--- a/bland/bland/ops/cpu/elementwise_scalar_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
@@ -32,8 +32,8 @@ ndarray elementwise_scalar_op(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
@@ -76,8 +76,8 @@ ndarray elementwise_scalar_op_fast(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index f61259c..19861bd 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -50,8 +50,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index e1eb690..c2a5f60 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -33,7 +33,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(x.ndim(), 0);
 
-    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), 0);
+    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), int64_t{0});
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index bb46f61..5d72503 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -55,12 +55,12 @@ struct mean_impl {
         using accumulator_type = double;
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
             accumulator_type mean            = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -166,13 +166,13 @@ struct masked_mean_impl {
         using accumulator_type = double;
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index  = input_index;
             accumulator_type mean             = 0;
             int64_t          elements_in_mean = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -281,7 +281,7 @@ struct stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -289,7 +289,7 @@ struct stddev_impl {
             accumulator_type accum_x2        = 0;
 
             // auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -406,7 +406,7 @@ struct masked_stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -416,7 +416,7 @@ struct masked_stddev_impl {
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -539,7 +539,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
     auto numel = out_mean.numel();
-    for (int i = 0; i < numel; ++i) {
+    for (int64_t i = 0; i < numel; ++i) {
         // Make a copy of the current input index, we'll fix the non-summed dims
         // and iterate over the reduced dims accumulating the total
         auto             reduce_nd_index = input_index;
@@ -547,7 +547,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         accumulator_type accum_x2        = 0;
 
         // auto this_reduction_mean = mean_data[mean_linear_index];
-        for (int jj = 0; jj < reduced_elements; ++jj) {
+        for (int64_t jj = 0; jj < reduced_elements; ++jj) {
             int64_t input_linear_index = 0;
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
             for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -674,7 +674,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out_mean.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -684,7 +684,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -811,7 +811,7 @@ struct standardized_moment_impl {
         double scale = 1.0 / static_cast<double>(reduced_elements - 1);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto   reduce_nd_index = input_index;
@@ -825,7 +825,7 @@ struct standardized_moment_impl {
             }
 
             auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -961,12 +961,12 @@ struct sum_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             in_datatype total           = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
@@ -1037,11 +1037,11 @@ struct count_impl {
         auto a_offset  = a.offsets();
 
         std::vector<int64_t> input_index(a_shape.size(), 0);
-        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
 
         int64_t count = 0;
         auto    numel = a.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             if (a_data[a_linear_index]) {
@@ -1106,12 +1106,12 @@ struct max_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             datatype max = std::numeric_limits<datatype>::lowest();
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 289ecbb..65bf0a9 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -436,7 +436,7 @@ void initialize_randn(T *data, int64_t numel, D distribution) {
     std::random_device rd{};
     std::mt19937       gen{rd()};
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = distribution(gen);
     }
 }
-- 
2.43.0


From 6ae5c32d3f6d8dab81f373074d44573c9bf9e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 093/118] fix: elementwise operations on arrays without
 dimensions do not index outside their shape

---
 bland/bland/ops/cpu/elementwise_binary_op.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 11fbfea..bd87fe0 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -45,6 +45,11 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
+    if (ndim == 0) {
+        // A single element, without any dimension to step through
+        out_data[out_index] = Op::template call<Out, A, B>(a_data[a_index], b_data[b_index]);
+        return out;
+    }
     int64_t       unroll_dim      = ndim - 1;
     int64_t       unroll_size     = LAST_DIM_UNROLL_FACTOR;
     const int64_t out_ldim_stride = out_strides[unroll_dim];
-- 
2.43.0


From 66d20dd8e10642b8828e47217a26c0a611556000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 094/118] fix: 64 bit element offset when reading one element
 of an array

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 8d8940e..a866dfd 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -248,7 +248,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
-- 
2.43.0


From da8d233733d8ed9eb1e22fe39002318fdb8fbd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 095/118] fix: an array without elements has no scalar value

---
 bland/bland/ndarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index a866dfd..2a81213 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -223,6 +223,9 @@ T bland::ndarray::scalarize() const {
     if (numel() > 1) {
         throw std::runtime_error("scalarize: There is more than one element, so not a scalar. Cannot scalarize");
     }
+    if (numel() == 0 || _tensor.data == nullptr) {
+        throw std::runtime_error("scalarize: There are no elements, so not a scalar. Cannot scalarize");
+    }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     auto offsets  = cpu_copy.offsets();
-- 
2.43.0


From 73a058bfa33e78c903a5da11d5cdb555d17ff11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 096/118] fix: median of an array without elements does not
 read outside of it

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 5d72503..4778bb7 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -903,6 +903,10 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 // TODO: generalize this to an ndarray op
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
+    if (size == 0) {
+        // There is no middle to read, the mean of no elements isn't a number either
+        return std::numeric_limits<float>::quiet_NaN();
+    }
 
     auto x_copy = bland::ndarray(x.shape(), ndarray::datatype::float32, x.device());
     x_copy = cpu::copy(x, x_copy);
-- 
2.43.0


From 74eb335a0cbd85fcabc9bfeaff2fb154270765fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 097/118] fix: get_hits_list and plot_hits accept a coarse
 channel

---
 bliss/python/blissdedrift/plot_utils/_encodings.py | 6 ++++--
 bliss/python/blissdedrift/plot_utils/plot_hits.py  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bliss/python/blissdedrift/plot_utils/_encodings.py b/bliss/python/blissdedrift/plot_utils/_encodings.py
index 5124a50..3b9f8cb 100644
--- a/bliss/python/blissdedrift/plot_utils/_encodings.py
+++ b/bliss/python/blissdedrift/plot_utils/_encodings.py
@@ -12,8 +12,10 @@ def get_hits_list(pipeline_object, origin_name=None):
         if origin_name is None:
             # Try to come up with a good one, but it probably doesn't matter
             origin_name = f"{pipeline_object.source_name}:{pipeline_object.src_dej:1.4f},{pipeline_object.src_raj:1.4f}:{pipeline_object.tstart:1.4f}"
-        # This should succeed for `coarse_channel` and `scan` which can directly query `hits()`
-        hits = pipeline_object.hits()
+        # This should succeed for `coarse_channel` (which has `hits`) and `scan` (which can query `hits()`)
+        hits = pipeline_object.hits
+        if callable(hits):
+            hits = hits()
         hits_list = [{
             "start_freq_MHz": hit.start_freq_MHz, "drift_rate_Hz_per_sec": hit.drift_rate_Hz_per_sec,
             "SNR": hit.snr, "power": hit.power, "bandwidth_Hz": hit.bandwidth,
diff --git a/bliss/python/blissdedrift/plot_utils/plot_hits.py b/bliss/python/blissdedrift/plot_utils/plot_hits.py
index 1b1edbb..ba4a0a8 100644
--- a/bliss/python/blissdedrift/plot_utils/plot_hits.py
+++ b/bliss/python/blissdedrift/plot_utils/plot_hits.py
@@ -39,7 +39,7 @@ def plot_hits(cc, focus_hits=None, all_hits=None, frequency_padding_Hz=500):
     end_time = start_time + tsamp * plot_spectrum.shape[0]
 
     if focus_hits is None and all_hits is None:
-        all_hits = cc.hits()
+        all_hits = cc.hits
 
     def base_plots_and_axes(plot_freq, plt_spec, plt_plane):
         gs = gridspec.GridSpec(20, 1)
-- 
2.43.0


From 12dd641339806b69447c9d3a1980b15aa9bdd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 098/118] fix: zero frequency of power spectra of more than
 2^24 samples is in the middle

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index e9a01f6..ee6e663 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -34,7 +34,7 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
 
     fftwf_execute(plan);
 
-    int dc_index = ceil((N-1)/2.0f);
+    int dc_index = N / 2;
     // The R2C fft returns floor(N/2)+1 outputs. The N/2 are conjugates 
     for (int i = 0; i < half_N; ++i) {
         float real = fftdata[i][0];
-- 
2.43.0


From 3325193e491e4a93e6912324b3237cd1873e4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 099/118] fix: converting a python array gives back the memory
 of its shape and strides

---
 bland/python/pybland.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 15c1e3d..aa558c1 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -333,14 +333,15 @@ bland::ndarray nb_to_bland(nb::ndarray<> t) {
             .dtype  = DLDataType{.code = t.dtype().code, .bits = t.dtype().bits, .lanes = t.dtype().lanes},
         }
     };
-    dl_x.dl_tensor.shape = reinterpret_cast<int64_t *>(malloc(sizeof(int64_t) * t.ndim()));
-    for (int dim = 0; dim < t.ndim(); ++dim) {
-        dl_x.dl_tensor.shape[dim] = t.shape(dim);
-    }
-    dl_x.dl_tensor.strides = reinterpret_cast<int64_t *>(malloc(sizeof(int64_t) * t.ndim()));
-    for (int dim = 0; dim < t.ndim(); ++dim) {
-        dl_x.dl_tensor.strides[dim] = t.stride(dim);
+    // the array has its own copy of shape and strides
+    std::vector<int64_t> shape(t.ndim());
+    std::vector<int64_t> strides(t.ndim());
+    for (size_t dim = 0; dim < t.ndim(); ++dim) {
+        shape[dim]   = t.shape(dim);
+        strides[dim] = t.stride(dim);
     }
+    dl_x.dl_tensor.shape   = shape.data();
+    dl_x.dl_tensor.strides = strides.data();
     dl_x.manager_ctx = t.handle();
     auto our_array = bland::ndarray(dl_x);
     return our_array;
-- 
2.43.0


From e7280a4c0286f05c8c51932ba0ed4ef1a41f214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 100/118] fix: reductions refuse axes the array does not have
 and outputs that cannot hold the result

---
 bland/bland/ops/statistical.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 77eeca6..fa72a9f 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -20,6 +20,27 @@
 
 using namespace bland;
 
+// A reduction is over different axes of the array, and has one element of output for each combination of the remaining indices
+static void validate_reduction(const ndarray &a, const ndarray &out, const std::vector<int64_t> &reduced_axes) {
+    int64_t out_numel = 1;
+    for (int64_t axis = 0; axis < a.ndim(); ++axis) {
+        auto requested = std::count(reduced_axes.begin(), reduced_axes.end(), axis);
+        if (requested > 1) {
+            throw std::invalid_argument("reduction over a repeated axis");
+        }
+        if (requested == 0 && !reduced_axes.empty()) {
+            out_numel *= a.shape()[axis];
+        }
+    }
+    for (auto axis : reduced_axes) {
+        if (axis < 0 || axis >= a.ndim()) {
+            throw std::out_of_range("reduction over an axis the array does not have");
+        }
+    }
+    if (out.numel() != out_numel) {
+        throw std::invalid_argument("out array does not have the shape of the reduction");
+    }
+}
 
 ndarray bland::max(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out_shape = std::vector<int64_t>();
@@ -40,6 +61,7 @@ ndarray bland::max(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::max(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -63,6 +85,7 @@ ndarray bland::max(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_
 }
 
 ndarray bland::mean(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
@@ -104,6 +127,7 @@ ndarray bland::mean(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::masked_mean(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -149,6 +173,7 @@ ndarray bland::masked_mean(const ndarray &a, const ndarray &mask, std::vector<in
 }
 
 ndarray bland::stddev(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -190,6 +215,7 @@ ndarray bland::stddev(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::masked_stddev(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -235,6 +261,8 @@ ndarray bland::masked_stddev(const ndarray &a, const ndarray &mask, std::vector<
 }
 
 std::pair<ndarray, ndarray> bland::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out_mean, reduced_axes);
+    validate_reduction(a, out_stddev, reduced_axes);
     auto compute_device = a.device();
 
     if (out_mean.device() != compute_device || out_stddev.device() != compute_device) {
@@ -277,6 +305,8 @@ std::pair<ndarray, ndarray> bland::mean_stddev(const ndarray &a, std::vector<int
 }
 
 std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const ndarray &mask, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out_mean, reduced_axes);
+    validate_reduction(a, out_stddev, reduced_axes);
     auto compute_device = a.device();
 
     if (out_mean.device() != compute_device || out_stddev.device() != compute_device) {
@@ -342,6 +372,7 @@ ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int
 }
 
 ndarray bland::standardized_moment(const ndarray &a, int degree, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     return cpu::standardized_moment(a, degree, out, reduced_axes);
 }
 ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int64_t> reduced_axes) {
@@ -367,6 +398,7 @@ float bland::median(const ndarray &x, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::sum(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, out, reduced_axes);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
-- 
2.43.0


From 9ad7cfd31bdc8b3e1c06299a4732c2a49d18836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 101/118] fix: hits and events of files over 64 MiB can be read
 back

---
 bliss/file_types/cpnp_files.cpp               | 11 ++++++-----
 bliss/file_types/detail/cpnp_hit_builder.cpp  |  9 +++++++++
 bliss/file_types/detail/cpnp_hit_builder.hpp  |  6 ++++++
 bliss/file_types/detail/raii_file_helpers.cpp |  5 ++++-
 bliss/file_types/detail/raii_file_helpers.hpp |  4 ++++
 bliss/file_types/events_file.cpp              |  3 ++-
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index cc4f059..dc7d575 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -46,9 +46,10 @@ std::list<hit> bliss::read_hits_from_capnp_file(std::string_view file_path) {
 
     kj::FdInputStream              fd_stream(in_file._fd);
     kj::BufferedInputStreamWrapper stream(fd_stream);
+    const auto                     options = detail::capnp_reader_options(in_file.size());
     // Only a clean end of file ends the list, a damaged message or a read error is an error
     while (stream.tryGetReadBuffer().size() > 0) {
-        capnp::InputStreamMessageReader message(stream);
+        capnp::InputStreamMessageReader message(stream, options);
         auto                            hit_reader    = message.getRoot<Hit>();
         auto                            signal_reader = hit_reader.getSignal();
 
@@ -75,7 +76,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::capnp_reader_options(in_file.size()));
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -97,7 +98,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::capnp_reader_options(in_file.size()));
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -120,7 +121,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::capnp_reader_options(in_file.size()));
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -142,7 +143,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, detail::capnp_reader_options(in_file.size()));
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 85e689c..c9f741b 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -2,9 +2,18 @@
 #include "cpnp_hit_builder.hpp"
 #include <core/hit.hpp>
 
+#include <algorithm> // std::max
+
 using namespace bliss;
 using namespace bliss::detail;
 
+capnp::ReaderOptions bliss::detail::capnp_reader_options(uint64_t file_size) {
+    capnp::ReaderOptions options;
+    // reading is limited to a multiple of the file, so a damaged message can still not stand for much more than is stored
+    options.traversalLimitInWords = std::max<uint64_t>(options.traversalLimitInWords, 4 * (file_size / sizeof(capnp::word)));
+    return options;
+}
+
 void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_builder, hit this_hit) {
     signal_builder.setFrequency(this_hit.start_freq_MHz);
     signal_builder.setIndex(this_hit.start_freq_index);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.hpp b/bliss/file_types/detail/cpnp_hit_builder.hpp
index e877cc5..e849073 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.hpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.hpp
@@ -16,6 +16,12 @@
 
 namespace bliss::detail {
 
+/**
+ * Options for reading messages from a file of given size (bytes): everything in the file may be read. The limits of
+ * cap'n proto would otherwise refuse to read back the hits of files over 64 MiB
+ */
+capnp::ReaderOptions capnp_reader_options(uint64_t file_size);
+
 /**
  * A single source for converting our native `bliss::hit` type to a cap'n proto `signal` through a capnp builder
  */
diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index bc1d630..0e0d78e 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -26,4 +26,7 @@ bliss::detail::raii_file_for_write::~raii_file_for_write() {
     close(_fd);
 }
 
-
+uint64_t bliss::detail::raii_file_for_read::size() const {
+    struct stat buffer;
+    return fstat(_fd, &buffer) == 0 && buffer.st_size > 0 ? buffer.st_size : 0;
+}
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 3800230..53e68d3 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -3,6 +3,7 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
+#include <cstdint>
 #include <string>
 #include <string_view>
 
@@ -34,6 +35,9 @@ struct raii_file_for_read {
     }
 
     ~raii_file_for_read() { close(_fd); }
+
+    // Size of the file (0 if it is not a regular file)
+    uint64_t size() const;
 };
 
 }  // namespace detail
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index a9e3b2b..1d05985 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -50,9 +50,10 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
 
     kj::FdInputStream              fd_stream(in_file._fd);
     kj::BufferedInputStreamWrapper stream(fd_stream);
+    const auto                     options = detail::capnp_reader_options(in_file.size());
     // Only a clean end of file ends the list, a damaged message or a read error is an error
     while (stream.tryGetReadBuffer().size() > 0) {
-        capnp::InputStreamMessageReader message(stream);
+        capnp::InputStreamMessageReader message(stream, options);
 
         auto event_reader      = message.getRoot<Event>();
         auto deserialized_hits = event_reader.getHits();
-- 
2.43.0


From 5877381073eef13f31c489bb46014649c301b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 102/118] fix: arange and linspace of more than 2^31 items

---
 bland/bland/ops/creators.cpp | 40 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 65bf0a9..616371a 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -33,13 +33,13 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -51,25 +51,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -81,25 +81,25 @@ ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (int64_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -241,13 +241,13 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 32: {
             auto data = aranged_array.data_ptr<float>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -259,25 +259,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
@@ -289,25 +289,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         switch (dtype.bits) {
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
-            for (int ii = 0; ii < number_steps; ++ii) {
+            for (size_t ii = 0; ii < number_steps; ++ii) {
                 data[ii] = start + (step * ii);
             }
         } break;
-- 
2.43.0


From b19822e8b1463744e3e5c6cb59e21041cfca12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 103/118] fix: large unsigned attributes of a foreign byte
 order keep their value

---
 bliss/file_types/h5_filterbank_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 51e75f6..52cfe40 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -82,6 +82,10 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(H5::PredType::NATIVE_DOUBLE, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER && attr.getIntType().getSign() == H5T_SGN_NONE) {
+            uint64_t val;
+            attr.read(H5::PredType::NATIVE_UINT64, &val);
+            return static_cast<T>(val);
         } else if (dtype.getClass() == H5T_INTEGER) {
             int64_t val;
             attr.read(H5::PredType::NATIVE_INT64, &val);
-- 
2.43.0


From facb6f5bb4795cd000fc85aefc51f540708bb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 104/118] fix: scans whose channel widths differ by less than 1
 Hz are not consistent

---
 bliss/core/cadence.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 7e6681c..5a08447 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -61,8 +61,9 @@ bool bliss::observation_target::validate_scan_consistency() {
     }
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
-        // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans) ||
+        // in MHz which gives us 1 Hz error and should be sufficient. Channel widths
+        // may themselves be around 1 Hz, so what counts is where they lead to at the end of the band
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) * nchans > 1e-6) || (sc.nchans() != nchans) ||
             (sc.get_number_coarse_channels() != number_coarse_channels)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans`, number of coarse channels does not match");
             return false;
@@ -153,7 +154,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans ||
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) * nchans > 1e-6) || sc.nchans() != nchans ||
                 sc.get_number_coarse_channels() != number_coarse_channels) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans`, number of coarse channels does not match");
                 return false;
-- 
2.43.0


From cacf7e60a776dbb7a5f6cdc70d119ce5430f52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 105/118] fix: events last until the end of the last scan they
 are found in

---
 bliss/drift_search/event_search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 7451773..7faf8c6 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -154,6 +154,11 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
                 }
                 if (best_distance_to_a_hit < 50 /* Made up number that looks good when staring at distances */) {
                     candidate_event.hits.push_back(*best_matching_hit);
+                    candidate_event.event_start_seconds =
+                            std::min(candidate_event.event_start_seconds, seconds_per_day * candidate_scan.tstart());
+                    candidate_event.event_end_seconds =
+                            std::max(candidate_event.event_end_seconds,
+                                     seconds_per_day * candidate_scan.tstart() + candidate_scan.tduration_secs());
                     hits_to_check.erase(best_matching_hit);
                     // TODO: fix this
                     // candidate_scan.hits(hits_to_check); // update the hits in the scan with the removed matches
-- 
2.43.0


From abd12d309fbec214385899301552665d677539db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 106/118] fix: missing coarse channels of a scan in memory are
 reported

---
 bliss/core/scan.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 2d85140..669c859 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -100,6 +100,11 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
 }
 
 scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
+    for (const auto &[channel_number, cc] : coarse_channels) {
+        if (cc == nullptr) {
+            throw std::invalid_argument("scan: a coarse channel is missing");
+        }
+    }
     _coarse_channels = coarse_channels;
     // Grab the first coarse channel
     auto first_cc = _coarse_channels.at(0);
@@ -236,6 +241,9 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
     auto global_offset_in_file = coarse_channel_index + _coarse_channel_offset;
     if (_coarse_channels.find(global_offset_in_file) == _coarse_channels.end()) {
+        if (_h5_file_handle == nullptr) {
+            throw std::out_of_range("ERROR: scan does not have this coarse channel and there is no file to read it from");
+        }
         // This is expected to be [time, feed, freq]
         auto data_count = _h5_file_handle->get_data_shape();
         std::vector<int64_t> data_offset(3, 0);
-- 
2.43.0


From 0754c3ff38db604c50cfe7bc3143de001fe8faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 107/118] fix: views moved between memory nodes keep their
 elements

---
 bland/bland/ops/ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index cb556d7..77453cc 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -108,7 +108,8 @@ ndarray bland::to(ndarray src, DLDevice dest_dev) {
         } else if (dest_dev.device_type == ndarray::dev::cpu.device_type) {
             if (source_dev.device_id != dest_dev.device_id) {
                 // cpu -> cpu, but different device_id, probably a numa thing
-                memcpy(dst_ptr, src_ptr, copy_size);
+                auto dense_src = bland::copy(src);
+                memcpy(dst_ptr, dense_src.data_ptr<void>(), copy_size);
             } else {
                 // should not get here (should have returned the src as our result since no copy is required)
                 throw std::runtime_error("bland to: cpu->cpu reached unexpected code path");
-- 
2.43.0


From ae2661ecdc7666bc7d9a7880b2ea13307afe4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 108/118] fix: a scan keeps its device when asked for one that
 is not available

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 669c859..b16f96a 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -362,8 +362,6 @@ bland::ndarray::dev bliss::scan::device() {
 }
 
 void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
-    _device = device;
-
     if (device.device_type == bland::ndarray::dev::cuda.device_type ||
         device.device_type == bland::ndarray::dev::cuda_managed.device_type) {
         if (!bland::g_config.check_is_valid_cuda_device(device.device_id, verbose)) {
@@ -371,6 +369,8 @@ void bliss::scan::set_device(bland::ndarray::dev &device, bool verbose) {
         }
     }
 
+    _device = device;
+
     for (auto &[channel_index, cc] : _coarse_channels) {
         cc->set_device(device);
     }
-- 
2.43.0


From 38fa49109d26a404c168a0df8172b18ec7d8213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 109/118] fix: recordings of the medium and high time
 resolution products get their documented channelization

---
 bliss/core/scan.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index b16f96a..0f1faf6 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -7,7 +7,9 @@
 #include "fmt/format.h"
 #include "fmt/ranges.h"
 
+#include <algorithm>
 #include <array>
+#include <cmath>
 #include <tuple>
 
 
@@ -52,9 +54,10 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
 
         auto num_coarse_channels = number_fine_channels / fine_channels_per_coarse;
         // Check this is an integer number of coarse channels, freq and time res are close enough
-        // to expected
+        // to expected (which are rounded to a few digits, 366210 Hz really is 366210.9375 Hz)
+        auto freq_tolerance = std::max(.1, 1e-3 * freq_res);
         if (num_coarse_channels * fine_channels_per_coarse == number_fine_channels &&
-            std::abs(std::abs(foff) - freq_res) < .1 && std::abs(std::abs(tsamp) - time_res) < .1) {
+            std::abs(std::abs(foff) - freq_res) < freq_tolerance && std::abs(std::abs(tsamp) - time_res) < .1) {
             return std::make_tuple(num_coarse_channels, std::get<0>(channelization));
         }
     }
-- 
2.43.0


From 7376c50b0cd2e59476eee213710a15618ef64261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 110/118] fix: frequencies at the start of a coarse channel are
 looked up to that channel in wide bands too

---
 bliss/core/scan.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 0f1faf6..e32b691 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -324,10 +324,10 @@ void bliss::scan::add_coarse_channel_transform(std::function<coarse_channel(coar
 }
 
 int bliss::scan::get_coarse_channel_with_frequency(double frequency) const {
-    auto band_fraction = ((frequency - _fch1) / _foff / static_cast<double>(_nchans));
-    // TODO: if band_fraction is < 0 or > 1 then it's not in this filterbank. Throw an error
-    auto fractional_channel = band_fraction * _num_coarse_channels;
-    return std::floor(fractional_channel);
+    auto fine_channel = (frequency - _fch1) / _foff;
+    // TODO: if the channel is < 0 or >= nchans then it's not in this filterbank. Throw an error
+    auto fine_channels_per_coarse = static_cast<double>(_nchans) / _num_coarse_channels;
+    return std::floor(fine_channel / fine_channels_per_coarse);
 }
 
 int bliss::scan::get_number_coarse_channels() const {
-- 
2.43.0


From 5137582c5c15fa1277d4f4a5422fa74f18d2f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 111/118] fix: sums of long arrays and into wider outputs do
 not lose elements

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 4778bb7..600f6b4 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -963,13 +963,19 @@ struct sum_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
+        // Wide enough not to lose small elements of long sums, or totals that only the out array can hold
+        using accumulator_type = std::conditional_t<std::is_floating_point_v<in_datatype> ||
+                                                            std::is_floating_point_v<out_datatype>,
+                                                    double,
+                                                    int64_t>;
+
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
         for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
-            auto        reduce_nd_index = input_index;
-            in_datatype total           = 0;
+            auto             reduce_nd_index = input_index;
+            accumulator_type total           = 0;
             for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -994,7 +1000,7 @@ struct sum_impl {
                 out_linear_index += out_offset[axis] + (out_index[axis]) * out_strides[axis];
             }
 
-            out_data[out_linear_index] = total;
+            out_data[out_linear_index] = static_cast<out_datatype>(total);
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 32c6ac2bc925946c2a6dac8b583f710634514da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:41 +0000
Subject: [PATCH 112/118] fix: the Fourier transform on the CPU is computed
 instead of returning unset memory

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 28 +++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index ee6e663..7ddcead 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -5,6 +5,7 @@
 
 #include "bland/ndarray.hpp"
 
+#include <complex>
 #include <fftw3.h>
 
 #include <fmt/format.h>
@@ -14,7 +15,32 @@ using namespace bland::cpu;
 
 
 ndarray bland::cpu::fft(ndarray x, ndarray &out) {
-    fmt::print("WARN: cpu fft not implemented yet\n");
+    auto shape = x.shape();
+    int N = shape[0];
+    int half_N = floor(N/2) + 1;
+
+    // fftw reads dense data
+    auto dense = ndarray(x.shape(), x.dtype(), x.device());
+    cpu::copy(x, dense);
+    auto in_ptr = dense.data_ptr<float>();
+    auto out_ptr = out.data_ptr<std::complex<float>>();
+
+    fftwf_complex *fftdata = (fftwf_complex*) fftwf_malloc(sizeof(fftwf_complex) * half_N);
+    fftwf_plan plan = fftwf_plan_dft_r2c_1d(N, in_ptr, fftdata, FFTW_ESTIMATE);
+
+    fftwf_execute(plan);
+
+    // The R2C fft returns floor(N/2)+1 outputs. The others are conjugates
+    for (int i = 0; i < half_N; ++i) {
+        out_ptr[i] = {fftdata[i][0], fftdata[i][1]};
+        if (i != 0 && N - i >= half_N) {
+            out_ptr[N - i] = {fftdata[i][0], -fftdata[i][1]};
+        }
+    }
+
+    fftwf_destroy_plan(plan);
+    fftwf_free(fftdata);
+
     return out;
 }
 
-- 
2.43.0


From 44048a6e5c5d26333f902d09a2297ae3e3543a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 113/118] fix: only signals of one dimension are transformed

---
 bland/bland/ops/frequency.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bland/bland/ops/frequency.cpp b/bland/bland/ops/frequency.cpp
index 2eba870..de8d105 100644
--- a/bland/bland/ops/frequency.cpp
+++ b/bland/bland/ops/frequency.cpp
@@ -12,6 +12,7 @@
 #include "cpu/frequency_cpu_impl.hpp"
 
 #include <fmt/format.h>
+#include <stdexcept>
 
 using namespace bland;
 
@@ -28,6 +29,9 @@ ndarray bland::fft_shift_mag_square(ndarray x) {
         // throw std::runtime_error("bland::fft: Unsupported datatype");
         throw std::runtime_error(err_msg);
     }
+    if (x.ndim() != 1) {
+        throw std::invalid_argument("bland::fft_shift_mag_square: only signals of one dimension are supported");
+    }
 
     auto out = ndarray(x.shape(), x.dtype(), x.device());
 
@@ -52,6 +56,9 @@ ndarray bland::fft(ndarray x) {
         fmt::print("ERROR: fft got an unsupported datatype\n");
         throw std::runtime_error("bland::fft: Unsupported datatype");
     }
+    if (x.ndim() != 1) {
+        throw std::invalid_argument("bland::fft: only signals of one dimension are supported");
+    }
 
     // 
     auto out = ndarray(x.shape(), ndarray::datatype::cfloat32, x.device());
-- 
2.43.0


From 2d307574b8fffef48e0e09b9172bddcec732656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 114/118] fix: the transform of an empty signal is empty
 instead of a crash

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 7ddcead..1060fd2 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -17,6 +17,9 @@ using namespace bland::cpu;
 ndarray bland::cpu::fft(ndarray x, ndarray &out) {
     auto shape = x.shape();
     int N = shape[0];
+    if (N == 0) {
+        return out; // fftw has no plans for nothing
+    }
     int half_N = floor(N/2) + 1;
 
     // fftw reads dense data
@@ -47,6 +50,9 @@ ndarray bland::cpu::fft(ndarray x, ndarray &out) {
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     auto shape = x.shape();
     int N = shape[0];
+    if (N == 0) {
+        return out; // fftw has no plans for nothing
+    }
     int half_N = floor(N/2) + 1;
 
     // fftw reads dense data
-- 
2.43.0


From b6f0a2a0f30d021210557f404a12b23494f01f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:27 +0000
Subject: [PATCH 115/118] fix: filterbank data is read along the axes its
 labels name

---
 bliss/file_types/h5_filterbank_file.cpp | 34 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 52cfe40..bbd413d 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,6 +5,7 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <bland/bland.hpp>
+#include <algorithm> // find
 #include <iostream> // cerr
 #include <vector>
 
@@ -347,19 +348,28 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
     spectrum_grid = bland::ndarray(count, bland::ndarray::datatype::float32, bland::ndarray::dev::cpu);
     // TODO: validate both offset and count are size 3
 
-    std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
-    std::vector<hsize_t> count_hsize(count.begin(), count.end());
-
-    // The file may have more dimensions of size 1
-    if (number_dims > static_cast<int>(shape.size())) {
-        auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
-        for (int dim = 0; dim < number_dims; ++dim) {
-            if (dim_labels[dim] != "time" && dim_labels[dim] != "feed_id" && dim_labels[dim] != "frequency") {
-                offset_hsize.insert(offset_hsize.begin() + dim, 0);
-                count_hsize.insert(count_hsize.begin() + dim, 1);
-            }
-        }
+    // The dimensions are found by their labels. Any further ones are of size 1
+    std::vector<hsize_t> dims(number_dims);
+    dataspace.getSimpleExtentDims(dims.data());
+    auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+    auto first_dim  = std::find(dim_labels.begin(), dim_labels.end(), "time") - dim_labels.begin();
+    auto feed_dim   = std::find(dim_labels.begin(), dim_labels.end(), "feed_id") - dim_labels.begin();
+    auto last_dim   = std::find(dim_labels.begin(), dim_labels.end(), "frequency") - dim_labels.begin();
+    if (static_cast<int64_t>(dims[first_dim]) != shape[0]) {
+        std::swap(first_dim, last_dim); // the labels are known to be swapped in this file
     }
+    if (first_dim > last_dim && shape[0] != 1 && shape[2] != 1) {
+        throw std::invalid_argument("Data with the frequency dimension before the time dimension is not supported");
+    }
+
+    std::vector<hsize_t> offset_hsize(number_dims, 0);
+    std::vector<hsize_t> count_hsize(number_dims, 1);
+    offset_hsize[first_dim] = offset[0];
+    count_hsize[first_dim]  = count[0];
+    offset_hsize[feed_dim]  = offset[1];
+    count_hsize[feed_dim]   = count[1];
+    offset_hsize[last_dim]  = offset[2];
+    count_hsize[last_dim]   = count[2];
 
     dataspace.selectHyperslab(H5S_SELECT_SET, count_hsize.data(), offset_hsize.data());
 
-- 
2.43.0


From eeccb08405f126aeb7097969753f3939c1d3fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 116/118] fix: a deferred array that was given nothing is an
 error to use instead of a crash

---
 bland/bland/ndarray_deferred.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray_deferred.cpp b/bland/bland/ndarray_deferred.cpp
index caed8af..d4be5ae 100644
--- a/bland/bland/ndarray_deferred.cpp
+++ b/bland/bland/ndarray_deferred.cpp
@@ -3,6 +3,8 @@
 
 #include <fmt/format.h>
 
+#include <stdexcept> // runtime_error
+
 using namespace bland;
 
 
@@ -21,7 +23,7 @@ bland::ndarray_deferred::ndarray_deferred(ndarray pod)
 
 ndarray_deferred bland::ndarray_deferred::to(bland::ndarray::dev device) {
     _device = device;
-    if (std::holds_alternative<ndarray>(*_deferred_data)) {
+    if (_deferred_data != nullptr && std::holds_alternative<ndarray>(*_deferred_data)) {
         auto unmemoized_array = std::get<ndarray>(*_deferred_data);
         auto on_device = unmemoized_array.to(_device.value());
         _deferred_data = std::make_shared<std::variant<bland::ndarray, std::function<bland::ndarray ()>>>(on_device);
@@ -38,6 +40,9 @@ ndarray_deferred bland::ndarray_deferred::to(std::string_view dev_str) {
 bland::ndarray_deferred::operator ndarray() {
     // TODO: to make thread-safe, we need a lock unless it's OK to execute
     // twice in a race
+    if (_deferred_data == nullptr) {
+        throw std::runtime_error("ndarray_deferred: there is no array and nothing to compute one");
+    }
     bland::ndarray actual_data;
     if (std::holds_alternative<std::function<ndarray()>>(*_deferred_data)) {
         actual_data = std::get<std::function<ndarray()>>(*_deferred_data)();
@@ -57,6 +62,9 @@ bland::ndarray_deferred::operator ndarray() {
 }
 
 std::string bland::ndarray_deferred::repr() const {
+    if (_deferred_data == nullptr) {
+        return "ndarray_deferred (empty)";
+    }
     if (std::holds_alternative<ndarray>(*_deferred_data)) {
         return std::get<ndarray>(*_deferred_data).repr();
     } else {
-- 
2.43.0


From 51e2723d3d26c1e9e0119e936248562addd22af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 117/118] fix: a scan of nothing has no channels instead of an
 unset number of them

---
 bliss/core/include/core/scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..477d4e0 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -158,9 +158,9 @@ class scan {
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int _fine_channels_per_coarse = 0;
     // Derived values at read-time
-    int64_t _num_coarse_channels;
+    int64_t _num_coarse_channels = 0;
     int64_t _coarse_channel_offset = 0;
 
     // slow time is number of spectra
-- 
2.43.0


From 7e6b2b07363f05b537f2204b2bd34331320acc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 118/118] fix: arrays of complex numbers of double precision
 are printed with their type

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 2a81213..b7ce8c4 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -292,6 +292,8 @@ std::string pretty_print(const ndarray &a) {
         dtype_pp = "float64";
     } else if (std::is_same<datatype, std::complex<float>>()) {
         dtype_pp = "complex<float32>";
+    } else if (std::is_same<datatype, std::complex<double>>()) {
+        dtype_pp = "complex<float64>";
     } else if (std::is_same<datatype, int8_t>()) {
         dtype_pp = "int8_t";
     } else if (std::is_same<datatype, int16_t>()) {
-- 
2.43.0

