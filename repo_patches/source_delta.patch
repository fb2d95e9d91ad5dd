From 69cdf8224c90da1a32707b5c77edaccfed9b5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 01/12] fix: InplaceLogicalAndWithOffsets reads rhs[0] of an
 empty bitmap

---
 arolla/util/algorithms.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/util/algorithms.h b/arolla/util/algorithms.h
index 6554720..ac1048d 100644
--- a/arolla/util/algorithms.h
+++ b/arolla/util/algorithms.h
@@ -156,6 +156,9 @@ void InplaceLogicalAndWithOffsets(
   DCHECK_GE(lhs_skip, 0);
   DCHECK_LT(rhs_skip, bits_per_word);
   DCHECK_GE(rhs_skip, 0);
+  if (bitmaps_size == 0) {
+    return;  // empty bitmaps may have no words to access
+  }
   size_t rhs_words =
       (bitmaps_size + rhs_skip + bits_per_word - 1) / bits_per_word;
   size_t lhs_words =
-- 
2.43.0


From a11558cccc736a28d61462a637c57a7dfdcca44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 02/12] fix: seq.range with a step or bounds close to the int64
 limits

---
 .../qexpr/operators/seq/sequence_operators.h  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/arolla/qexpr/operators/seq/sequence_operators.h b/arolla/qexpr/operators/seq/sequence_operators.h
index ac62353..e4791bd 100644
--- a/arolla/qexpr/operators/seq/sequence_operators.h
+++ b/arolla/qexpr/operators/seq/sequence_operators.h
@@ -50,19 +50,22 @@ class SequenceRangeOpFamily final : public OperatorFamily {
     if (step == 0) {
       return absl::InvalidArgumentError("seq.range(): `step` must be non-zero");
     }
+    // NOTE: All computations below use unsigned arithmetic; `distance + step`
+    // may exceed the int64_t/uint64_t range.
     size_t seq_size = 0;
     if (step > 0) {
       if (start < stop) {
-        seq_size = (static_cast<uint64_t>(stop) - static_cast<uint64_t>(start) +
-                    static_cast<uint64_t>(step) - 1) /
-                   static_cast<uint64_t>(step);
+        seq_size = (static_cast<uint64_t>(stop) - static_cast<uint64_t>(start) -
+                    1) /
+                       static_cast<uint64_t>(step) +
+                   1;
       }
     } else {
       if (stop < start) {
-        seq_size =
-            ((-static_cast<uint64_t>(stop)) - (-static_cast<uint64_t>(start)) +
-             (-static_cast<uint64_t>(step)) - 1) /
-            (-static_cast<uint64_t>(step));
+        seq_size = (static_cast<uint64_t>(start) - static_cast<uint64_t>(stop) -
+                    1) /
+                       (-static_cast<uint64_t>(step)) +
+                   1;
       }
     }
     if (seq_size == 0) {
@@ -70,10 +73,10 @@ class SequenceRangeOpFamily final : public OperatorFamily {
     }
     ASSIGN_OR_RETURN(auto mutable_seq,
                      MutableSequence::Make(GetQType<int64_t>(), seq_size));
-    auto y = start;
+    auto y = static_cast<uint64_t>(start);
     for (auto& x : mutable_seq.UnsafeSpan<int64_t>()) {
-      x = y;
-      y += step;
+      x = static_cast<int64_t>(y);
+      y += static_cast<uint64_t>(step);
     }
     return std::move(mutable_seq).Finish();
   }
-- 
2.43.0


From 278099f27e59ee439a58b8aa68c3d8fa2345bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 03/12] fix: strip of bytes with a byte >= 0x80 threw, and \x08
 was always stripped

---
 arolla/qexpr/operators/strings/strings.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/arolla/qexpr/operators/strings/strings.h b/arolla/qexpr/operators/strings/strings.h
index fc98bff..bab8136 100644
--- a/arolla/qexpr/operators/strings/strings.h
+++ b/arolla/qexpr/operators/strings/strings.h
@@ -126,11 +126,13 @@ struct LStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
+      std::bitset<256> char_set;
       for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+        char_set.set(static_cast<unsigned char>(c));
       }
-      return Bytes(do_lstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_lstrip(bytes, [&](char c) {
+        return char_set.test(static_cast<unsigned char>(c));
+      }));
     } else {
       return Bytes(
           do_lstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
@@ -181,11 +183,13 @@ struct RStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
+      std::bitset<256> char_set;
       for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+        char_set.set(static_cast<unsigned char>(c));
       }
-      return Bytes(do_rstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_rstrip(bytes, [&](char c) {
+        return char_set.test(static_cast<unsigned char>(c));
+      }));
     } else {
       return Bytes(
           do_rstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
-- 
2.43.0


From 1881f074473165cda93a6339e8c4856d4dc134ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 04/12] fix: StringsBuffer::ReshuffleBuilder ignored the base
 offset for default entries

Entries left at their default pointed outside of (or to the wrong part of)
the characters when the source buffer had a non-zero base offset, e.g. after
a DeepCopy of a slice.
---
 arolla/memory/strings_buffer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..9df4fc5 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -63,8 +63,9 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
     // Due to default_value characters buffer can not be reused. So we copy the
     // buffer and add default_value at the end.
     int64_t def_value_size = default_value.value.size();
+    offset_type def_value_offset = base_offset_ + characters_.size();
     offsets_bldr_.SetNConst(
-        0, max_size, {characters_.size(), def_value_size + characters_.size()});
+        0, max_size, {def_value_offset, def_value_offset + def_value_size});
     SimpleBuffer<char>::Builder chars_bldr(characters_.size() + def_value_size,
                                            buf_factory);
     char* data = chars_bldr.GetMutableSpan().data();
@@ -73,8 +74,7 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
                 def_value_size);
     characters_ = std::move(chars_bldr).Build();
   } else {
-    std::memset(offsets_bldr_.GetMutableSpan().begin(), 0,
-                max_size * sizeof(Offsets));
+    offsets_bldr_.SetNConst(0, max_size, {base_offset_, base_offset_});
   }
 }
 
-- 
2.43.0


From 109769de6ed16f49331537af7cec0b209ab73eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 05/12] fix: compare ids as signed values when iterating over a
 range of arrays

With a negative ids_offset the ids were compared as unsigned integers, so rows of the range were skipped or treated as missing.
---
 arolla/array/ops_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/ops_util.h b/arolla/array/ops_util.h
index e9e0a2f..8f075ec 100644
--- a/arolla/array/ops_util.h
+++ b/arolla/array/ops_util.h
@@ -150,7 +150,7 @@ class ArrayOpsUtil<ConvertToDense, meta::type_list<Ts...>> {
 
   template <class Fn, class RepeatedFn, class MissedFn, size_t... Is>
   void Iterate(Fn&& fn, RepeatedFn&& repeated_fn, MissedFn&& missing_fn,
-               std::index_sequence<Is...>, uint64_t from, uint64_t to) const {
+               std::index_sequence<Is...>, int64_t from, int64_t to) const {
     DCHECK_GE(from, 0);
     DCHECK_GE(to, from);
     if (ids_.type() == IdFilter::kFull) {
-- 
2.43.0


From 856985f2fbf460fa1f0576343f875f9b5bd3deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 06/12] fix: AlmostFullBuilder::Build(size) without missing ids

It returned a non-empty slice of an empty buffer, which refers to no memory.
---
 arolla/dense_array/bitmap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arolla/dense_array/bitmap.h b/arolla/dense_array/bitmap.h
index 54fada1..5840860 100644
--- a/arolla/dense_array/bitmap.h
+++ b/arolla/dense_array/bitmap.h
@@ -250,6 +250,8 @@ class AlmostFullBuilder {
 
   Bitmap Build() && { return std::move(bitmap_buffer_); }
   Bitmap Build(int64_t size) && {
+    // Without missing ids there is no buffer to slice.
+    if (bitmap_buffer_.empty()) return Bitmap();
     return std::move(bitmap_buffer_).Slice(0, BitmapSize(size));
   }
 
-- 
2.43.0


From 8c88fd84c2b6783447b4526898c6714583e236f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 07/12] fix: empty arrays are always equivalent

Two empty constant arrays with different values for missing ids were reported as different.
---
 arolla/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 370efab..09a722c 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -396,6 +396,7 @@ class AROLLA_API Array {
 template <typename T>
 bool ArraysAreEquivalent(const Array<T>& lhs, const Array<T>& rhs) {
   if (lhs.size() != rhs.size()) return false;
+  if (lhs.empty()) return true;
   if (lhs.IsDenseForm() && rhs.IsDenseForm()) {
     return ArraysAreEquivalent(lhs.dense_data(), rhs.dense_data());
   }
-- 
2.43.0


From e99806817faff0998c8a60ba3071d6870e1502a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 08/12] fix: the fingerprint of an IdFilter depends on its
 ids_offset

Sparse arrays that differ only in the offset of their ids had the same fingerprint.
---
 arolla/array/id_filter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..b1e9745 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,7 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    hasher->Combine(value.ids(), value.ids_offset());
   }
 }
 
-- 
2.43.0


From 9f5d4550313ea1c026bd6c5582bd9f5787317e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 09/12] fix: the fingerprint of a StringsBuffer depends on its
 base offset

Buffers of different strings that differ only in the base offset had the same fingerprint.
---
 arolla/memory/strings_buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index 9df4fc5..576edfb 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -207,6 +207,7 @@ void FingerprintHasherTraits<StringsBuffer>::operator()(
   // This is fine for now, but may be worth reconsidering in the future.
   hasher->Combine(value.size());
   if (!value.empty()) {
+    hasher->Combine(value.base_offset());
     auto offsets_span = value.offsets().span();
     hasher->CombineRawBytes(offsets_span.data(),
                             offsets_span.size() * sizeof(offsets_span[0]));
-- 
2.43.0


From 2af7d8086b1b2c7ee8df0ae36e072a489fe8e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 10/12] fix: sample every segment of a single-input forest at a
 value inside it

The middle of two split points overflowed for large int64 and float values,
the outer segments were sampled at a value that can itself be a split point,
and the split point of an interval [inf, inf] was not registered.
---
 .../pointwise_evaluation/single_input_eval.cc | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..da784f6 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -17,6 +17,7 @@
 #include <cstdint>
 #include <limits>
 #include <memory>
+#include <numeric>
 #include <optional>
 #include <type_traits>
 #include <utility>
@@ -64,8 +65,7 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
       if (interval_cond->left() != -inf) {
         split_points->push_back(interval_cond->left());
       }
-      if (interval_cond->right() != inf &&
-          interval_cond->right() != interval_cond->left()) {
+      if (interval_cond->right() != inf) {
         split_points->push_back(interval_cond->right());
       }
       return absl::OkStatus();
@@ -90,6 +90,25 @@ absl::StatusOr<std::vector<T>> GetSplitPoints(
   return split_points;
 }
 
+// Returns a value strictly between the two adjacent split points. If there is
+// no such value, then the result is not specified.
+template <typename T>
+T GetValueBetween(T left, T right) {
+  if constexpr (std::numeric_limits<T>::has_infinity) {
+    constexpr T inf = std::numeric_limits<T>::infinity();
+    if (left == -inf && right == inf) {
+      return T{0};
+    }
+    if (left == -inf) {
+      return std::numeric_limits<T>::lowest();
+    }
+    if (right == inf) {
+      return std::numeric_limits<T>::max();
+    }
+  }
+  return std::midpoint(left, right);
+}
+
 template <typename T>
 bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
   if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
@@ -164,13 +183,19 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    // The first and the last segments include the infinities (unless an infinity
+    // is a split point; in this case the corresponding value is not used).
+    constexpr bool has_infinity = std::numeric_limits<T>::has_infinity;
+    middle_values.push_back(
+        evaluator.Eval(has_infinity ? -std::numeric_limits<T>::infinity()
+                                    : std::numeric_limits<T>::lowest()));
     for (int i = 1; i < split_points.size(); ++i) {
-      T left = split_points[i - 1];
-      T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      middle_values.push_back(
+          evaluator.Eval(GetValueBetween(split_points[i - 1], split_points[i])));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(
+        evaluator.Eval(has_infinity ? std::numeric_limits<T>::infinity()
+                                    : std::numeric_limits<T>::max()));
   }
 
   return PiecewiseConstantEvaluator<T>(
-- 
2.43.0


From 6f415f668a14608ae0e70bf6e35723fe8f4a6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 11/12] fix: do not treat NaN as a missing value in a
 single-input forest

SetOfValuesSplitCondition with result_if_missed is true for a missing value
but false for NaN.
---
 .../pointwise_evaluation/single_input_eval.cc | 19 +++++++++++++++----
 .../pointwise_evaluation/single_input_eval.h  |  4 +++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index da784f6..2e5c0d8 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -198,28 +198,39 @@ PiecewiseConstantCompiler<T>::Build(
                                     : std::numeric_limits<T>::max()));
   }
 
+  float result_if_value_is_missed = evaluator.Eval(std::nullopt);
+  float result_if_value_is_nan = result_if_value_is_missed;
+  if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
+    result_if_value_is_nan = evaluator.Eval(std::numeric_limits<T>::quiet_NaN());
+  }
+
   return PiecewiseConstantEvaluator<T>(
       input_slot, std::move(split_points), std::move(point_values),
-      std::move(middle_values), evaluator.Eval(std::nullopt));
+      std::move(middle_values), result_if_value_is_missed,
+      result_if_value_is_nan);
 }
 
 template <typename T>
 PiecewiseConstantEvaluator<T>::PiecewiseConstantEvaluator(
     FrameLayout::Slot<OptionalValue<T>> slot, std::vector<T> split_points,
     std::vector<float> point_values, std::vector<float> middle_values,
-    float result_if_value_is_missed)
+    float result_if_value_is_missed, float result_if_value_is_nan)
     : input_slot_(slot),
       split_points_(std::move(split_points)),
       point_values_(std::move(point_values)),
       middle_values_(std::move(middle_values)),
-      result_if_value_is_missed_(result_if_value_is_missed) {}
+      result_if_value_is_missed_(result_if_value_is_missed),
+      result_if_value_is_nan_(result_if_value_is_nan) {}
 
 template <typename T>
 float PiecewiseConstantEvaluator<T>::Eval(const ConstFramePtr ctx) const {
   OptionalValue<T> opt_value = ctx.Get(input_slot_);
-  if (!opt_value.present || is_nan(opt_value.value)) {
+  if (!opt_value.present) {
     return result_if_value_is_missed_;
   }
+  if (is_nan(opt_value.value)) {
+    return result_if_value_is_nan_;
+  }
   T value = opt_value.value;
 
   int split_point_id =
diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
index cdcb89a..6b281c9 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
@@ -49,7 +49,8 @@ class PiecewiseConstantEvaluator {
                                       std::vector<T> split_points,
                                       std::vector<float> point_values,
                                       std::vector<float> middle_values,
-                                      float result_if_value_is_missed);
+                                      float result_if_value_is_missed,
+                                      float result_if_value_is_nan);
 
   float Eval(ConstFramePtr ctx) const;
 
@@ -59,6 +60,7 @@ class PiecewiseConstantEvaluator {
   std::vector<float> point_values_;
   std::vector<float> middle_values_;
   float result_if_value_is_missed_;
+  float result_if_value_is_nan_;
 };
 
 // Constructs PiecewiseConstantEvaluator from set of decision trees. All trees
-- 
2.43.0


From f0c73e5033feee2ac41a8673476d683e89ebecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:59 +0000
Subject: [PATCH 12/12] fix: check the size of a single array in
 ConcatJaggedArraysAlongDimension

---
 arolla/jagged_shape/util/concat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arolla/jagged_shape/util/concat.h b/arolla/jagged_shape/util/concat.h
index 9dd34f5..5b4d491 100644
--- a/arolla/jagged_shape/util/concat.h
+++ b/arolla/jagged_shape/util/concat.h
@@ -387,10 +387,6 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
                    jagged_shape_internal::ConcatJaggedShapesAlongDimension(
                        array_shapes, dim, insert_concat_dim));
 
-  if (arrays.size() == 1) {
-    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
-  }
-
   for (int64_t i_array = 0; i_array < arrays.size(); ++i_array) {
     if (arrays[i_array].size() != array_shapes[i_array].size()) {
       return absl::InvalidArgumentError(absl::StrFormat(
@@ -400,6 +396,10 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
     }
   }
 
+  if (arrays.size() == 1) {
+    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
+  }
+
   const int64_t concat_dim_parent_size =
       result_jagged_shape.edges()[dim].parent_size();
 
-- 
2.43.0

