From ac1596f8dc2e5a57b9aa878db4168334bf5dbb71 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 01/44] fix: scan consistency check rejected scans whose
 fch1/foff match instead of those that differ

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..c7cc5e6 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -146,7 +146,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From fb2d312e66a84e87cfb58191575714a9b7c299ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 02/44] fix: reading coarse channel number_coarse_channels is
 out of range

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..802cf74 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,7 +212,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -272,7 +272,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From 706fe79a946569f5076e41d95a93c5ae70c38105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 03/44] fix: squeezing a sliced axis lost the offset of the
 slice

---
 bland/bland/ndarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..e38425e 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -670,6 +670,10 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    // The squeezed axis may itself be a slice, keep pointing at the same element
+    if (!new_offsets.empty()) {
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From 29c000066a484ff8eec789353f4eb9a39fff19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 04/44] fix: negative slice bounds were counted from one
 element before the end

---
 bland/bland/ops/ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..cafc130 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -167,13 +167,13 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
+        start = a.size(dim) + start;
     } else if (start > a.size(dim)) {
         throw std::out_of_range("Invalid start for stride (begins beyond the end)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
-- 
2.43.0


From 30c1dc4734d73633d5ac9a9de652a4d2ee5c6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 05/44] fix: flag_filter_rolloff changed the mask of its input
 and, for zero width, flagged the whole band

---
 bliss/flaggers/filter_rolloff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..c3a7a08 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -12,12 +12,13 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        // The mask is shared with the input, so flag a copy
+        bland::ndarray rfi_flags = bland::copy(mask);
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
         bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
+        bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
         return rfi_flags;
     });
     
-- 
2.43.0


From dc9cdf7f32e0c16ec9e888f7c83c9e48172fbff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 06/44] fix: operators with a scalar left operand swapped their
 operands (and / multiplied)

---
 bland/bland/ndarray.cpp                | 4 ++--
 bland/bland/ops/cpu/comparison_cpu.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index e38425e..ea7dcc3 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -479,7 +479,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return (rhs - lhs) * int32_t{-1};
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +569,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return ndarray(rhs.shape(), lhs, rhs.dtype(), rhs.device()) / rhs;
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..cb45b37 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -19,7 +19,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -66,7 +66,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -110,7 +110,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -154,7 +154,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From 40917565200ff4ec66820ce900c29f10b7ebd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 07/44] fix: array operations ignored the broadcast shape
 (output size, lower rank operands, copies into a mismatched view)

---
 .../include/internal/shape_helpers.cpp         | 15 +++++++--------
 bland/bland/ops/cpu/arithmetic_cpu.cpp         |  6 ++++--
 bland/bland/ops/cpu/comparison_cpu.cpp         | 18 ++++++++++++------
 bland/bland/ops/cpu/elementwise_unary_op.hpp   |  4 ++--
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..5549229 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -56,15 +56,14 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    std::vector<int64_t> broadcast_shape(out_shape.size(), 1);
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+    // Shapes are aligned at the last dimension
+    int64_t leading_dims = static_cast<int64_t>(out_shape.size()) - static_cast<int64_t>(shape.size());
+    for (int64_t i = 0; i < static_cast<int64_t>(shape.size()); ++i) {
+        int64_t out_dim = i + leading_dims;
+        if (out_dim >= 0 && (shape[i] == out_shape[out_dim] || shape[i] == 1)) {
+            broadcast_shape[out_dim] = out_shape[out_dim];
         }
     }
 
diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index cb45b37..995e8c6 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -25,7 +25,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +73,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +118,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +163,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +208,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +256,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..bf36710 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,6 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
-    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
@@ -45,6 +43,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     } else {
         throw std::runtime_error("out rank does not match in rank. Cannot store output in provided tensor");
     }
+    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape   = compute_broadcast_shape(a_shape, out_shape);
 
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
-- 
2.43.0


From 83f066feeab85beae87b4dc995e9094ebe408a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 08/44] fix: local maxima search compared every candidate with
 itself and never found a maximum

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..376685a 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // the candidate itself is not one of its neighbors
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 553b096d925f1b29c9cf6907913e72dd5180c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 09/44] fix: connected components reported the rfi counts of
 the first bin found instead of those of the maximum

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From c3bd043b04c6924d71d98102506f7a7a9edd75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 10/44] fix: drift integration read and wrote out of bounds for
 drifts spanning more than the number of channels

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..c5ea728 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -80,7 +80,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
@@ -129,7 +129,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
-- 
2.43.0


From 2eaad788e62f7d401011e78e4b99e4dea0fa1d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 11/44] fix: masked standard deviation of near constant data
 was nan

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..5d56fd5 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -454,7 +454,8 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            auto diff = std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -711,7 +712,8 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            auto diff = std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 37733815b363ece45a35803bbbbadf9f371497b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 12/44] fix: masked reductions read the mask with the memory
 layout of the data

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 5d56fd5..6f5603b 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -177,11 +177,13 @@ struct masked_mean_impl {
             int64_t          elements_in_mean = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -421,11 +423,13 @@ struct masked_stddev_impl {
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -678,11 +682,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From d440b38b92c9fe2d95f7c04f5c1db9cfc7c8b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 13/44] fix: inferring the channelization of a scan with fewer
 than 2**18 channels divided by zero

---
 bliss/core/scan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 802cf74..b304b1a 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -7,6 +7,7 @@
 #include "fmt/format.h"
 #include "fmt/ranges.h"
 
+#include <algorithm> // max
 #include <array>
 #include <tuple>
 
@@ -68,7 +69,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
     {
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
-        auto number_coarse = number_fine_channels / common_channelization;
+        auto number_coarse = std::max(number_fine_channels / common_channelization, 1);
         auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
@@ -82,7 +83,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
     {
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
-        auto number_coarse = number_fine_channels / common_channelization;
+        auto number_coarse = std::max(number_fine_channels / common_channelization, 1);
         auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
-- 
2.43.0


From 7a164a5ea4e72a5ce968ffd7d4a9a54f0233444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 14/44] fix: filterbank files without the optional nchans, nifs
 or nbits attributes could not be used

---
 bliss/core/scan.cpp                     | 7 +++++--
 bliss/file_types/h5_filterbank_file.cpp | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index b304b1a..040dc07 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -172,22 +172,25 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
+    // This is expected to be [time, feed, freq]
+    auto data_shape = _h5_file_handle->get_data_shape();
     // int64_t     nchans;
     try {
         _nchans = fb_file.read_data_attr<int64_t>("nchans");
     } catch (std::invalid_argument &e) {
         // nchans is not specified, derive from datashape
+        _nchans = data_shape[2];
     }
     // int64_t     nifs;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
+        _nifs = data_shape[1];
     }
 
-    // This is expected to be [time, feed, freq]
-    auto data_shape = _h5_file_handle->get_data_shape();
     if (data_shape.size() == 3) {
         _ntsteps = data_shape[0];
         _tduration_secs = _ntsteps * _tsamp;
diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..15fff76 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -276,7 +276,13 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     if (std::get<1>(freq_bins) == false) {
         throw std::invalid_argument("Could not find a frequency dimension in dimension labels");
     }
-    if (std::get<0>(time_steps) == read_data_attr<int64_t>("nchans") && std::get<0>(freq_bins) != read_data_attr<int64_t>("nchans")) {
+    auto nchans = std::get<0>(freq_bins);
+    try {
+        nchans = read_data_attr<int64_t>("nchans");
+    } catch (std::invalid_argument &e) {
+        // nchans is not specified, assume the labels are right
+    }
+    if (std::get<0>(time_steps) == nchans && std::get<0>(freq_bins) != nchans) {
         static bool warning_issued = false;
         if (!warning_issued) {
             fmt::print("WARN h5_filterbank_file: the DIMENSION_LABELS appear out of order, time dimension matches nchans\n");
-- 
2.43.0


From 7f6192d83ea0c860b6b7e32eaad790f1dc2a3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 15/44] fix: scans built from coarse channels did not set the
 number of fine channels used to slice them

---
 bliss/core/scan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 040dc07..5124883 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -108,7 +108,8 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _num_coarse_channels = _coarse_channels.size();
     _foff = first_cc->foff();
     _fch1 = first_cc->fch1();
-    _nchans = first_cc->nchans() * _num_coarse_channels;
+    _fine_channels_per_coarse = first_cc->nchans();
+    _nchans = _fine_channels_per_coarse * _num_coarse_channels;
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
     _source_name = first_cc->source_name();
-- 
2.43.0


From c1d3fb74c0550a8af2fb19b2c91dbbe057b84a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 16/44] fix: slicing an observation target lost its name

---
 bliss/core/cadence.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index c7cc5e6..5b647fc 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,7 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
-- 
2.43.0


From 191eec2d707fb5769ca4dfa01ddc44185f24ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 17/44] fix: the coarse channel a hit was found in was not
 written to capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..4359634 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -23,6 +23,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
 
     signal_builder.setBandwidth(this_hit.bandwidth);
     signal_builder.setBinwidth(this_hit.binwidth);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     // These currently aren't in the capn proto definition to be serialized
     // rfi     rfi_counts;
 }
@@ -43,6 +44,8 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
+
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
     // The following are not (currently) in the capn proto definition
     // this_hit.rfi_counts;
 
@@ -55,7 +58,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     auto md_builder = cc_builder.initMd();
     md_builder.setFch1(cc.fch1());
     // fil_builder.setBeam(); // not dealing with multiple beams (yet)
-    // fil_builder.setCoarseChannel(); // not dealing with multiple coarse channels (yet)
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
     // fil_builder.setData(); // don't need or want to duplicate large chunks of data (yet)
     md_builder.setDec(cc.src_dej());
     md_builder.setRa(cc.src_raj());
@@ -100,7 +103,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
+                                          0 /* za_start */,
+                                          md.getCoarseChannel() /* coarse_channel_number */
     );
 
     std::list<hit> deserialized_hits;
-- 
2.43.0


From f02fadae72b138cc2bba85f388d9b539e739e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 18/44] fix: reading scan hits from a capnp file left the
 telescope unset

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 4359634..9535696 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -165,6 +165,7 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_src_raj(md.getRa());
     scan_with_hits.set_src_dej(md.getDec());
     scan_with_hits.set_source_name(md.getSourceName());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
     scan_with_hits.set_tstart(md.getTstart());
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
-- 
2.43.0


From 92ca12dec67fd953f9fd84f1faed1da427f44826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 19/44] fix: the distance between hits used the duration of the
 wrong hit

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From af3a1971a4cd679ffc7912dd24aba170d7ddc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 20/44] fix: bliss_find_hits wrote the hits of all inputs to
 the file named after the first

---
 bliss/bliss_find_hits.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..adf992a 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,23 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            // Without an explicit output every scan goes to its own file
+            auto scan_output_path   = output_path;
+            auto scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From a602d425a24aef124470dd35fc9f7c402148cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 21/44] fix: flag_magnitude had no effect on scans, observation
 targets and cadences

---
 bliss/flaggers/magnitude.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..3309e51 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,12 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) { return flag_magnitude(cc, threshold); });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) { return flag_magnitude(cc); });
     return fil_data;
 }
 
-- 
2.43.0


From 68fc97fa7aaf8fd069b27bbfc7c58bd64cf89d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 22/44] fix: equalize_passband_filter had no effect on scans,
 observation targets and cadences

---
 bliss/preprocess/passband_static_equalize.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From d6fa5863c50d09cb82e513b903e5b1d928d5fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 23/44] fix: scans built from coarse channels did not carry the
 source position and telescope

---
 bliss/core/scan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 5124883..3991bbb 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -113,6 +113,10 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
     _source_name = first_cc->source_name();
+    _machine_id = first_cc->_machine_id;
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
 }
-- 
2.43.0


From 7aca596f16be0284b873b844da8512eae1981a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 24/44] fix: scalarize of a one element slice ignored the
 offset of the slice

---
 bland/bland/ndarray.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index ea7dcc3..804eb48 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -221,7 +221,9 @@ T bland::ndarray::scalarize() const {
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    // The element may be part of a slice
+    auto offsets = cpu_copy.offsets();
+    return cpu_copy.data_ptr<T>()[std::accumulate(offsets.begin(), offsets.end(), int64_t{0})];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From e5982918911559338071bb892b001e2d2a2f7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 25/44] fix: frequency lookup was wrong when the fine channels
 do not divide into coarse channels

---
 bliss/core/scan.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 3991bbb..9a2ddad 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -304,9 +304,9 @@ void bliss::scan::add_coarse_channel_transform(std::function<coarse_channel(coar
 }
 
 int bliss::scan::get_coarse_channel_with_frequency(double frequency) const {
-    auto band_fraction = ((frequency - _fch1) / _foff / static_cast<double>(_nchans));
-    // TODO: if band_fraction is < 0 or > 1 then it's not in this filterbank. Throw an error
-    auto fractional_channel = band_fraction * _num_coarse_channels;
+    auto fine_channel = (frequency - _fch1) / _foff;
+    // TODO: if fine_channel is < 0 or >= _nchans then it's not in this filterbank. Throw an error
+    auto fractional_channel = fine_channel / _fine_channels_per_coarse;
     return std::floor(fractional_channel);
 }
 
-- 
2.43.0


From 294f6758ebee8bf4fa64b7e3024700d4b2acf2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 26/44] fix: sigma clipping made a mask of the wrong type and
 always failed

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From b29fd79c924ce6b19412c86cb89f49664ffdfb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 27/44] fix: drift integration read views of spectrograms and
 masks from the wrong place

The kernel walked the buffer by the strides but ignored the offsets of
sliced arrays.
---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index c5ea728..d0daf3c 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -25,6 +25,14 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     auto rfi_strides = rfi_mask.strides();
     auto rfi_shape   = rfi_mask.shape();
 
+    // views (slices) start somewhere inside their buffer
+    for (auto offset : spectrum_grid.offsets()) {
+        spectrum_ptr += offset;
+    }
+    for (auto offset : rfi_mask.offsets()) {
+        rfi_ptr += offset;
+    }
+
     int32_t time_steps      = spectrum_grid.size(0);
     auto number_channels = spectrum_grid.size(1);
     auto number_drifts = static_cast<int64_t>(drift_rates.size());
-- 
2.43.0


From 121bfc7aa516eb35ac09aa086dc1517eb0925a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 28/44] fix: hit searches read views of drift planes from the
 wrong place

The kernels walked the buffer by the strides but ignored the offsets of
sliced arrays.
---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 3 +++
 bliss/drift_search/kernels/local_maxima_cpu.cpp         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 62653bf..9fa1073 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -95,6 +95,9 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    for (auto offset : doppler_spectrum.offsets()) {
+        doppler_spectrum_data += offset; // views start somewhere inside their buffer
+    }
 
     auto visited =
             bland::ndarray(doppler_spectrum.shape(), 0, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 376685a..468db89 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -20,6 +20,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    for (auto offset : doppler_spectrum.offsets()) {
+        doppler_spectrum_data += offset; // views start somewhere inside their buffer
+    }
 
     // Use 1 to mark visited, then we can potentially replace this creation with a mask of above thresh to speed things
     // up a bit
-- 
2.43.0


From ac1686b8026d8f36b269f4b07b007a690fb8d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 29/44] fix: start times of hits lost precision when stored in
 files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 7 ++++++-
 bliss/file_types/hit.capnp                   | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 9535696..aac5fb3 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -19,6 +19,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setPower(this_hit.power);
     signal_builder.setIncoherentPower(this_hit.power);
     signal_builder.setStartTime(this_hit.start_time_sec);
+    signal_builder.setStartTimeSeconds(this_hit.start_time_sec);
     signal_builder.setDurationSeconds(this_hit.duration_sec);
 
     signal_builder.setBandwidth(this_hit.bandwidth);
@@ -40,7 +41,11 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
 
-    this_hit.start_time_sec = signal_reader.getStartTime();
+    this_hit.start_time_sec = signal_reader.getStartTimeSeconds();
+    if (this_hit.start_time_sec == 0) {
+        // Files written before startTimeSeconds was stored only have the single precision time
+        this_hit.start_time_sec = signal_reader.getStartTime();
+    }
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
diff --git a/bliss/file_types/hit.capnp b/bliss/file_types/hit.capnp
index 7af468c..cfe419b 100644
--- a/bliss/file_types/hit.capnp
+++ b/bliss/file_types/hit.capnp
@@ -47,10 +47,11 @@ struct Signal {
   # This is available in the stamps files, but not in the hits files.
   incoherentPower @9 :Float32;
 
-  startTime @11 :Float32; # MJ in seconds
+  startTime @11 :Float32; # MJ in seconds, too coarse to tell scans apart: see startTimeSeconds
   durationSeconds @12 :Float32; # duration of hit in seconds
   bandwidth @13 :Float32;
   binwidth @14 :Float32;
+  startTimeSeconds @15 :Float64; # MJD in seconds
 }
 
 # The Filterbank contains a smaller slice of the larger filterbank that we originally
-- 
2.43.0


From fe90d5e4f23fcd28cf331e4d264375fc1d4dc9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 30/44] fix: hits of channels that were not read before were
 missing from scan files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index aac5fb3..7a3de34 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -147,6 +147,13 @@ void bliss::detail::bliss_scan_to_capnp_scan(Scan::Builder &scan_builder, scan s
 
     for (int cc_index=0; cc_index < number_coarse_channels; ++cc_index) {
         auto cc = scan_with_hits.peak_coarse_channel(cc_index);
+        if (cc == nullptr) {
+            // Not used yet, but the scan's pipeline may provide hits for this channel
+            auto unread_cc = scan_with_hits.read_coarse_channel(cc_index);
+            if (unread_cc->has_hits()) {
+                cc = unread_cc;
+            }
+        }
         if (cc != nullptr) {
             auto cc_builder = serialized_coarse_channels[cc_index];
             bliss_coarse_channel_to_capnp_coarse_channel_message(cc_builder, *cc);
-- 
2.43.0


From c509634a0047e7f3081b0bb63fe80b22915b121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 31/44] fix: observation targets lost their name when read from
 files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7a3de34..4adf8e4 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -197,13 +197,13 @@ void bliss::detail::bliss_observation_target_to_capnp_observation_target_message
 
 observation_target bliss::detail::capnp_observation_target_message_to_bliss_observation_target(ObservationTarget::Reader &obstarget_reader) {
     auto capnp_scans = obstarget_reader.getScans();
-    observation_target target;
+    std::vector<scan> scans;
 
     for (int scan_index=0; scan_index < capnp_scans.size(); ++scan_index) {
         auto capnp_scan = capnp_scans[scan_index];
-        target._scans.emplace_back(capnp_scan_message_to_bliss_scan(capnp_scan));
+        scans.emplace_back(capnp_scan_message_to_bliss_scan(capnp_scan));
     }
-    return target;
+    return observation_target(scans);
 }
 
 void bliss::detail::bliss_cadence_to_capnp_cadence_message(Cadence::Builder &cadence_builder, cadence cadence_with_hits) {
-- 
2.43.0


From 68f57fc294985a22009f576c75e98411e879f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 32/44] fix: hits did not say how many time steps they span

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..b4b1e60 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -50,6 +50,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         this_hit.start_freq_MHz = dedrifted_scan.fch1() + freq_offset;
         this_hit.start_time_sec = dedrifted_scan.tstart() * 24 * 60 * 60; // convert MJD to seconds since MJ
         this_hit.duration_sec   = dedrifted_scan.tsamp() * integration_length;
+        this_hit.time_span_steps = integration_length;
         this_hit.coarse_channel_number = dedrifted_scan._coarse_channel_number;
         hits.push_back(this_hit);
     }
-- 
2.43.0


From 7a50f2c0aa6bd9ca1e328b946c8f5f04e46f863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 33/44] fix: refusing an unknown file format threw a formatting
 error instead

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From 161d0169aac5e0206a934ad01baa65adfa4584b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 34/44] fix: pickled hits lost precision and fields

---
 bliss/core/hit.cpp              |  8 +++++++-
 bliss/core/include/core/hit.hpp | 15 +++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..83fe121 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -20,7 +20,10 @@ hit::state_tuple bliss::hit::get_state() const {
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
+                           binwidth,
+                           start_time_sec,
+                           duration_sec,
+                           coarse_channel_number
                            // rfi_counts,
     );
 }
@@ -35,4 +38,7 @@ void bliss::hit::set_state(state_tuple state) {
     snr                   = std::get<6>(state);
     bandwidth             = std::get<7>(state);
     binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<9>(state);
+    duration_sec          = std::get<10>(state);
+    coarse_channel_number = std::get<11>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..9fb8eed 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,14 +81,17 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
+                                   int64_t /*coarse_channel_number*/
                                    // rfi /*rfi_counts*/,
                                    >;
 
-- 
2.43.0


From e3f36859d419317b4028044e892c23046952a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 35/44] fix: reshape of views and of more than one axis
 selected the wrong elements

---
 bland/bland/ndarray.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 804eb48..40e1df2 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -602,6 +602,22 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         // This won't always be right and I think sometimes it might be required to make
         // a copy. That's what pytorch does if the new shape isn't compatible due to strides
         int64_t new_ndim = new_shape.size();
+        // A view with the new shape only exists if the elements are evenly spaced in row-major order
+        int64_t spacing         = 1;
+        int64_t expected_stride = 0; // 0 until the innermost axis that has several elements is found
+        for (int axis = _tensor.ndim - 1; axis >= 0; --axis) {
+            if (_tensor.shape[axis] == 1) {
+                continue;
+            }
+            if (expected_stride == 0) {
+                spacing         = _tensor.strides[axis];
+                expected_stride = spacing;
+            } else if (_tensor.strides[axis] != expected_stride) {
+                throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+            }
+            expected_stride *= _tensor.shape[axis];
+        }
+
         // We can collapse all offsets to the last dimension
         auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
         new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
@@ -609,17 +625,10 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
 
         // Number of dims changing means we need to update strides
         auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
+        int64_t accumulated_stride = spacing;
         for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
+            new_strides[axis] = accumulated_stride;
+            accumulated_stride *= new_shape[axis];
         }
         _tensor._strides_ownership = new_strides;
         _tensor.strides            = _tensor._strides_ownership.data();
-- 
2.43.0


From 470ce99dedc626222c09b4ea8af83293fe3ef205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 36/44] fix: flag counts of a drift line wrapped at 256

---
 .../include/core/integrate_drifts_options.hpp  |  6 +++---
 bliss/core/include/core/protohit.hpp           |  6 +++---
 .../include/drift_search/hit_search.hpp        |  2 +-
 .../kernels/connected_components_cpu.cpp       |  6 +++---
 .../kernels/connected_components_cuda.cu       |  8 ++++----
 .../kernels/drift_integration_cpu.cpp          |  6 +++---
 .../kernels/drift_integration_cuda.cu          | 18 +++++++++---------
 .../drift_search/kernels/local_maxima_cpu.cpp  |  6 +++---
 8 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/bliss/core/include/core/integrate_drifts_options.hpp b/bliss/core/include/core/integrate_drifts_options.hpp
index 1da0c10..33cd345 100644
--- a/bliss/core/include/core/integrate_drifts_options.hpp
+++ b/bliss/core/include/core/integrate_drifts_options.hpp
@@ -32,9 +32,9 @@ struct integrated_flags {
     bland::ndarray::dev _device = default_device;
 
     integrated_flags(int64_t drifts, int64_t channels, bland::ndarray::dev device = default_device) :
-            filter_rolloff(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint8, device)),
-            low_spectral_kurtosis(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint8, device)),
-            high_spectral_kurtosis(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint8, device))
+            filter_rolloff(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint32, device)),
+            low_spectral_kurtosis(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint32, device)),
+            high_spectral_kurtosis(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint32, device))
             // magnitude(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint8, device)),
             // sigma_clip(bland::ndarray({drifts, channels}, 0, bland::ndarray::datatype::uint8, device))
             {}
diff --git a/bliss/core/include/core/protohit.hpp b/bliss/core/include/core/protohit.hpp
index 1629e72..742102c 100644
--- a/bliss/core/include/core/protohit.hpp
+++ b/bliss/core/include/core/protohit.hpp
@@ -7,7 +7,7 @@
 
 namespace bliss {
 
-using rfi = std::map<flag_values, uint8_t>; // TODO: not so elegant, but OKish?
+using rfi = std::map<flag_values, uint32_t>; // TODO: not so elegant, but OKish?
 
 struct freq_drift_coord {
     int64_t drift_index=0;
@@ -36,8 +36,8 @@ struct device_protohit {
     // freq_drift_coord* locations;
     int binwidth;
     // rfi rfi_counts;
-    uint8_t low_sk_count;
-    uint8_t high_sk_count;
+    uint32_t low_sk_count;
+    uint32_t high_sk_count;
     // -1 indicates an invalid protohit, 0 indicates valid, > 0 indicates another protohit that is better
     int invalidated_by=-1;
 };
diff --git a/bliss/drift_search/include/drift_search/hit_search.hpp b/bliss/drift_search/include/drift_search/hit_search.hpp
index 1909739..e8a328a 100644
--- a/bliss/drift_search/include/drift_search/hit_search.hpp
+++ b/bliss/drift_search/include/drift_search/hit_search.hpp
@@ -15,7 +15,7 @@
 
 namespace bliss {
 
-using rfi = std::map<flag_values, uint8_t>; // TODO: not so elegant, but OKish?
+using rfi = std::map<flag_values, uint32_t>; // TODO: not so elegant, but OKish?
 
 
 /**
diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 9fa1073..584c26d 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -157,11 +157,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint32_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint32_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint32_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
diff --git a/bliss/drift_search/kernels/connected_components_cuda.cu b/bliss/drift_search/kernels/connected_components_cuda.cu
index 8d6774f..1ae7b61 100644
--- a/bliss/drift_search/kernels/connected_components_cuda.cu
+++ b/bliss/drift_search/kernels/connected_components_cuda.cu
@@ -264,8 +264,8 @@ __global__ void merge_labels(
 }
 
 __global__ void collect_protohit_md_kernel(
-    uint8_t* rfi_low_sk,
-    uint8_t* rfi_high_sk,
+    uint32_t* rfi_low_sk,
+    uint32_t* rfi_high_sk,
     uint32_t *g_labels,
     int32_t number_drifts, int32_t number_channels,
     device_protohit* protohits,
@@ -455,8 +455,8 @@ bliss::find_components_above_threshold_cuda(bland::ndarray                   dop
     dev_protohits.resize(*m_num_maxima);
 
     collect_protohit_md_kernel<<<1, 512>>>(
-        dedrifted_rfi.low_spectral_kurtosis.data_ptr<uint8_t>(),
-        dedrifted_rfi.high_spectral_kurtosis.data_ptr<uint8_t>(),
+        dedrifted_rfi.low_spectral_kurtosis.data_ptr<uint32_t>(),
+        dedrifted_rfi.high_spectral_kurtosis.data_ptr<uint32_t>(),
         g_labels,
         number_drifts, number_channels,
         thrust::raw_pointer_cast(dev_protohits.data()),
diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index d0daf3c..4437f67 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -40,9 +40,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     bland::ndarray drift_plane({number_drifts, number_channels}, spectrum_grid.dtype(), spectrum_grid.device());
 
     auto rfi_in_drift    = integrated_flags(number_drifts, number_channels, rfi_mask.device());
-    auto rolloff_rfi_ptr = rfi_in_drift.filter_rolloff.data_ptr<uint8_t>();
-    auto lowsk_rfi_ptr   = rfi_in_drift.low_spectral_kurtosis.data_ptr<uint8_t>();
-    auto highsk_rfi_ptr  = rfi_in_drift.high_spectral_kurtosis.data_ptr<uint8_t>();
+    auto rolloff_rfi_ptr = rfi_in_drift.filter_rolloff.data_ptr<uint32_t>();
+    auto lowsk_rfi_ptr   = rfi_in_drift.low_spectral_kurtosis.data_ptr<uint32_t>();
+    auto highsk_rfi_ptr  = rfi_in_drift.high_spectral_kurtosis.data_ptr<uint32_t>();
 
     auto rolloff_rfi_strides = rfi_in_drift.filter_rolloff.strides();
     auto lowsk_rfi_strides = rfi_in_drift.low_spectral_kurtosis.strides();
diff --git a/bliss/drift_search/kernels/drift_integration_cuda.cu b/bliss/drift_search/kernels/drift_integration_cuda.cu
index 9ab8163..9568065 100644
--- a/bliss/drift_search/kernels/drift_integration_cuda.cu
+++ b/bliss/drift_search/kernels/drift_integration_cuda.cu
@@ -27,9 +27,9 @@ struct kernel_drift_info {
 };
 
 __global__ void integrate_drifts(float* drift_plane_data,
-                            uint8_t* rolloff_data,
-                            uint8_t* low_sk_rfi_data, 
-                            uint8_t* high_sk_rfi_data,
+                            uint32_t* rolloff_data,
+                            uint32_t* low_sk_rfi_data,
+                            uint32_t* high_sk_rfi_data,
                             int32_t* drift_plane_shape, int32_t* drift_plane_strides,
                             const float* spectrum_grid_data,
                             const uint8_t* rfi_mask_data,
@@ -51,9 +51,9 @@ __global__ void integrate_drifts(float* drift_plane_data,
             
             int64_t drift_plane_index = drift_index * number_channels + freq_channel;
 
-            uint8_t accumulated_low_sk = 0;
-            uint8_t accumulated_high_sk = 0;
-            uint8_t accumulated_rolloff = 0;
+            uint32_t accumulated_low_sk = 0;
+            uint32_t accumulated_high_sk = 0;
+            uint32_t accumulated_rolloff = 0;
 
             float accumulated_spectrum = 0;
             int accumulated_bins = 0;
@@ -134,9 +134,9 @@ bliss::integrate_linear_rounded_bins_cuda(bland::ndarray    spectrum_grid,
     bland::ndarray drift_plane({number_drifts, number_channels}, spectrum_grid.dtype(), spectrum_grid.device());
 
     auto rfi_in_drift    = integrated_flags(number_drifts, number_channels, rfi_mask.device());
-    auto rolloff_rfi_ptr = rfi_in_drift.filter_rolloff.data_ptr<uint8_t>();
-    auto lowsk_rfi_ptr   = rfi_in_drift.low_spectral_kurtosis.data_ptr<uint8_t>();
-    auto highsk_rfi_ptr  = rfi_in_drift.high_spectral_kurtosis.data_ptr<uint8_t>();
+    auto rolloff_rfi_ptr = rfi_in_drift.filter_rolloff.data_ptr<uint32_t>();
+    auto lowsk_rfi_ptr   = rfi_in_drift.low_spectral_kurtosis.data_ptr<uint32_t>();
+    auto highsk_rfi_ptr  = rfi_in_drift.high_spectral_kurtosis.data_ptr<uint32_t>();
 
     auto rolloff_rfi_strides = rfi_in_drift.filter_rolloff.strides();
     auto lowsk_rfi_strides = rfi_in_drift.low_spectral_kurtosis.strides();
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 468db89..6d06b4d 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -102,11 +102,11 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                     c.desmeared_noise = noise_at_this_drift;
 
                     c.rfi_counts[flag_values::low_spectral_kurtosis] =
-                            dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                            dedrifted_rfi.low_spectral_kurtosis.scalarize<uint32_t>({curr_coord.drift_index, curr_coord.frequency_channel});
                     c.rfi_counts[flag_values::high_spectral_kurtosis] =
-                            dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                            dedrifted_rfi.high_spectral_kurtosis.scalarize<uint32_t>({curr_coord.drift_index, curr_coord.frequency_channel});
                     c.rfi_counts[flag_values::filter_rolloff] =
-                            dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                            dedrifted_rfi.filter_rolloff.scalarize<uint32_t>({curr_coord.drift_index, curr_coord.frequency_channel});
                     // c.rfi_counts[flag_values::magnitude] =
                     //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                     // c.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From b867b296d210dcf1d06dc29e1fd64832f5c0f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 37/44] fix: comparisons of signed with unsigned integers, and
 of floats with wide integers, compared changed values

---
 bland/bland/ops/cpu/comparison_cpu_impl.hpp | 29 +++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu_impl.hpp b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
index fa38cda..6b975cf 100644
--- a/bland/bland/ops/cpu/comparison_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
@@ -1,43 +1,62 @@
 #pragma once
 
+#include <cstdint>
 #include <stdexcept>
 #include <type_traits>
 
 
 namespace bland {
 
+/**
+ * The type in which an A and a B are compared. The common type of a signed and an unsigned integer, or of a float and
+ * a 32 bit integer, does not hold all of their values.
+ */
+template <typename A, typename B>
+constexpr auto comparison_type() {
+    if constexpr (std::is_integral_v<A> && std::is_integral_v<B> && std::is_signed_v<A> != std::is_signed_v<B>) {
+        return int64_t{};
+    } else if constexpr (std::is_floating_point_v<A> != std::is_floating_point_v<B>) {
+        return double{};
+    } else {
+        return std::common_type_t<A, B>{};
+    }
+}
+
+template <typename A, typename B>
+using comparison_t = decltype(comparison_type<A, B>());
+
 struct greater_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a > b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) > static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct greater_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a >= b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) >= static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct less_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a <= b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) <= static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct less_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a < b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) < static_cast<comparison_t<A, B>>(b));
     }
 };
 
 struct equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a == b);
+        return static_cast<Out>(static_cast<comparison_t<A, B>>(a) == static_cast<comparison_t<A, B>>(b));
     }
 };
 
-- 
2.43.0


From 1e61fc5b634dea33c5ca638fbe03eca7db57768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 38/44] fix: comparing with a negative integer from Python went
 through an inexact float

---
 bland/python/pybland.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index d45827b..f828aef 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -187,6 +187,9 @@ void bind_pybland(nb::module_ m) {
     // m.def("less_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::less_than(nb_to_bland(a), b);
     // });
+    m.def("less_than", [](nb::ndarray<> a, int32_t b) {
+        return bland::less_than(nb_to_bland(a), b);
+    });
     m.def("less_than", [](nb::ndarray<> a, float b) {
         return bland::less_than(nb_to_bland(a), b);
     });
@@ -206,6 +209,9 @@ void bind_pybland(nb::module_ m) {
     // m.def("greater_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::greater_than(nb_to_bland(a), b);
     // });
+    m.def("greater_than", [](nb::ndarray<> a, int32_t b) {
+        return bland::greater_than(nb_to_bland(a), b);
+    });
     m.def("greater_than", [](nb::ndarray<> a, float b) {
         return bland::greater_than(nb_to_bland(a), b);
     });
-- 
2.43.0


From e809f7e8e66943446a8cd97fe1a41074fb0fafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 39/44] fix: the power spectrum of an even number of samples
 was written one past its end

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..5fe4d92 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -38,7 +38,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        // With even N the last output is the Nyquist frequency, which is shifted to the front only
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-- 
2.43.0


From b50a443e930c0f43e47116efdbce69c04e68fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 40/44] fix: the power spectrum of a slice was that of other
 elements of its base

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 5fe4d92..e96c367 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -1,4 +1,5 @@
 #include "frequency_cpu_impl.hpp"
+#include "ops_cpu.hpp" // copy
 
 #include "internal/dispatcher.hpp"
 
@@ -22,7 +23,11 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
-    auto in_ptr = x.data_ptr<float>();
+    // x may be a slice, but FFTW needs the elements next to each other
+    auto x_contiguous = ndarray(shape, x.dtype(), x.device());
+    x_contiguous = cpu::copy(x, x_contiguous);
+
+    auto in_ptr = x_contiguous.data_ptr<float>();
     auto out_ptr = out.data_ptr<float>();
 
     fftwf_complex *fftdata = (fftwf_complex*) fftwf_malloc(sizeof(fftwf_complex) * half_N);
-- 
2.43.0


From a1c8b83c85cb419d1b9da1f0e5eb6fc84749d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 41/44] fix: sigma clipping of small powers stopped before it
 had converged

---
 bliss/flaggers/sigmaclip.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 9e58dbb..1228f02 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -10,8 +10,7 @@ using namespace bliss;
 
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
-    constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
+    auto rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
@@ -19,8 +18,8 @@ bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, f
         rfi = (data < (mean - stddev * low)) + (data > (mean + stddev * high));
 
         auto [new_mean, new_std] = bland::masked_mean_stddev(data, rfi);
-        if (std::abs((new_mean - mean).scalarize<float>()) < eps &&
-            std::abs((new_std - stddev).scalarize<float>()) < eps) {
+        // converged once nothing changes: a tolerance would depend on how large the data are
+        if ((new_mean - mean).scalarize<float>() == 0 && (new_std - stddev).scalarize<float>() == 0) {
             break;
         } else {
             mean   = new_mean;
-- 
2.43.0


From 107693d9dce0b0e16d9c8321eb83a3e937bf9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 42/44] fix: reading the mask of a whole file failed

read_mask's default count is empty, as read_data's: it stands for everything from the offset on.
---
 bliss/file_types/h5_filterbank_file.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 15fff76..5510ef9 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -373,6 +373,13 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     return mask_grid;
     // } else {
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
+        if (count.empty()) {
+            // as in read_data: everything from the offset on
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
         return mask_grid;
-- 
2.43.0


From c4622b9c412d6a306ee62278b699f95df5512295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 43/44] fix: sharing a slice gave another library the first
 elements of its base

to_dlpack left out the offsets of a slice; together they are the tensor's byte_offset.
---
 bland/bland/bland_tensor_internals.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..1c303a6 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -194,22 +194,6 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
-
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
     DLManagedTensor *tensor = new DLManagedTensor;
@@ -220,6 +204,10 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
     auto context_owner  = new blandDLTensor(*this);
     tensor->dl_tensor   = *context_owner;
     tensor->manager_ctx = context_owner;
+    // dlpack has no offset per dimension: together they are where the first element is
+    for (const auto &offset : _offsets) {
+        tensor->dl_tensor.byte_offset += offset * (dtype.bits / 8);
+    }
 
     tensor->deleter = [](DLManagedTensor *self) {
         // We're basically letting numpy actually delete data. We *want* numpy to just allow us to delete...
-- 
2.43.0


From 14a0337b07921249bcc3b3b27baa0716b90c9d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 44/44] fix: an array taken in from another library lost its
 data, offset or shape

Assigning such an array to another took the data from the (empty) owner instead of the borrowed
pointer; byte_offset and absent (compact) strides of the dlpack tensor were not heeded, and shape
and strides went on pointing into the other library's memory although they had been copied.
---
 bland/bland/bland_tensor_internals.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 1c303a6..bef4b0b 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,8 +30,16 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    if (other_tensor.dl_tensor.strides != nullptr) {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    } else {
+        // dlpack allows strides to be left out for a compact row-major tensor
+        _strides_ownership = std::vector<int64_t>(DLTensor::ndim, 1);
+        for (int dim = DLTensor::ndim - 2; dim >= 0; --dim) {
+            _strides_ownership[dim] = _strides_ownership[dim + 1] * _shape_ownership[dim + 1];
+        }
+    }
     DLTensor::strides  = _strides_ownership.data();
 
     // dlpack can't support offsets, so they must be 0
@@ -39,9 +47,9 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
+    // the elements start byte_offset bytes after data
+    DLTensor::data        = static_cast<uint8_t *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
+    DLTensor::byte_offset = 0;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
@@ -173,7 +181,7 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        this->data            = other.data; // as in the copy constructor: the data may be borrowed
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0

