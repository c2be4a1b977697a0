From 061a6b07f8f6a65a0f367a5a241aace0f05ca77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 01/25] fix: exclude non-finite values from the sparse
 elementwise batch variance

---
 tensorflow_transform/tf_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 2876c16..6cc4625 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1080,8 +1080,15 @@ def _reduce_batch_count_mean_and_var_sparse(
     x_sum = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_sum, finite_x)
     x_mean = tf.math.divide_no_nan(x_sum, x_count)
     x_minus_mean = tf.sparse.add(finite_x, -tf.broadcast_to(x_mean, tf.shape(x)))
+    # Non-finite values are excluded from the count, so they must not contribute to
+    # the sum of squares either.
+    x_minus_mean_values = tf.where(
+        _is_finite(x.values),
+        tf.gather_nd(x_minus_mean, x.indices),
+        tf.zeros_like(x.values),
+    )
     x_minus_mean_sparse = tf.SparseTensor(
-        x.indices, tf.gather_nd(x_minus_mean, x.indices), x.dense_shape
+        x.indices, x_minus_mean_values, x.dense_shape
     )
     sum_of_squares = tf.math.reduce_sum(
         tf.square(tf.sparse.to_dense(x_minus_mean_sparse)), axis=0
-- 
2.43.0


From 8bfa5cc896418670906f5b15a01f565d237aa0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 02/25] fix: sum the values of a batch in the output dtype of
 the sum analyzer

The sum of a batch of a narrow integer dtype wrapped around, so that the result
of tft.sum depended on the batch size.
---
 tensorflow_transform/analyzers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 2caa9ad..d28e57f 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -700,18 +700,21 @@ def sum(  # pylint: disable=redefined-builtin
       TypeError: If the type of `x` is not supported.
     """
     with tf.compat.v1.name_scope(name, "sum"):
+        # Reduce the batch in the output dtype, since the sum of a batch of a narrower
+        # dtype might overflow.
+        batch_dtype = _SUM_OUTPUT_DTYPE_MAP.get(x.dtype, x.dtype)
         if reduce_instance_dims:
-            x = tf.reduce_sum(input_tensor=tf_utils.get_values(x))
+            x = tf.reduce_sum(input_tensor=tf.cast(tf_utils.get_values(x), batch_dtype))
         elif isinstance(x, tf.SparseTensor):
             if x.dtype == tf.uint8 or x.dtype == tf.uint16:
-                x = tf.cast(x, tf.int64)
+                batch_dtype = tf.int64
             elif x.dtype == tf.uint32 or x.dtype == tf.uint64:
                 raise TypeError("Data type %r is not supported" % x.dtype)
-            x = tf.sparse.reduce_sum(x, axis=0)
+            x = tf.sparse.reduce_sum(tf.cast(x, batch_dtype), axis=0)
         elif isinstance(x, tf.RaggedTensor):
             raise NotImplementedError("Elementwise sum does not support RaggedTensors.")
         else:
-            x = tf.reduce_sum(input_tensor=x, axis=0)
+            x = tf.reduce_sum(input_tensor=tf.cast(x, batch_dtype), axis=0)
         output_dtype, sum_fn = _sum_combine_fn_and_dtype(x.dtype)
         return _numeric_combine(
             inputs=[x],
-- 
2.43.0


From c77dad443f7675c2c970fa6b0455948c8b9e076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 03/25] fix: keep min and max of batches whose values all equal
 the default of one output

A batch holding only the largest value of its dtype (e.g. 255 for uint8, or
infinity) has a negated minimum equal to the default accumulator value, and was
dropped as if it were empty, so that its maximum was lost.
---
 tensorflow_transform/analyzers.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index d28e57f..e66fdca 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -286,6 +286,20 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def _is_default_sub_accumulator(self, array):
         raise NotImplementedError("Implementation should be set in __init__.")
 
+    def _is_default_accumulator(self, accumulator):
+        # A single default subaccumulator does not suffice: e.g. the (negated) minimum
+        # of a batch is default if all its values are the largest value of the dtype,
+        # but its maximum is not. The other subaccumulators may be default without
+        # being 0-dim, if the static shapes of some of the outputs only are known.
+        return self._is_default_sub_accumulator(accumulator[0]) and all(
+            np.array_equal(
+                sub_accumulator,
+                np.full(np.shape(sub_accumulator), self._default_accumulator_value),
+                equal_nan=bool(np.isnan(self._default_accumulator_value)),
+            )
+            for sub_accumulator in accumulator[1:]
+        )
+
     def create_accumulator(self):
         return [self._create_sub_accumulator(shape) for shape in self._output_shapes]
 
@@ -300,9 +314,9 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def add_input(self, accumulator, batch_values):
         # TODO(b/112414577): Go back to accepting only a single input.
         # See comment in _numeric_combine.
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
-        if self._is_default_sub_accumulator(accumulator[0]):
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
+        if self._is_default_accumulator(accumulator):
             return batch_values
         else:
             return [
@@ -311,12 +325,12 @@ class NumPyCombiner(analyzer_nodes.Combiner):
             ]
 
     def merge_accumulators(self, accumulators):
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
         non_default_accumulators = [
             accumulator
             for accumulator in accumulators
-            if not self._is_default_sub_accumulator(accumulator[0])
+            if not self._is_default_accumulator(accumulator)
         ]
         if non_default_accumulators:
             return [
-- 
2.43.0


From 0a1be27e6bee45d32cc69b3b855d3c3330b00177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 04/25] fix: compute the cross terms of a covariance batch in
 the output dtype

Integer batches were multiplied in their own dtype, so the cross products
overflowed, e.g. int32 vectors with entries around 70000 gave a negative
variance.
---
 tensorflow_transform/analyzers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index e66fdca..32b95b5 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2708,6 +2708,10 @@ class CovarianceCombiner(analyzer_nodes.Combiner):
 
         assert len(np.shape(batch_value)) == 2
 
+        # Products of integers might overflow the dtype of the input.
+        batch_value = batch_value.astype(
+            np.promote_types(batch_value.dtype, self._numpy_dtype)
+        )
         batch_cross_terms = np.matmul(np.transpose(batch_value), batch_value).astype(
             self._numpy_dtype
         )
-- 
2.43.0


From 28b22c09597c20eabf334d8fb65eabfc27b5f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 05/25] fix: no placeholder token in a vocabulary whose
 coverage arm has tokens

---
 tensorflow_transform/beam/analyzer_impls.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 88be5ef..57b80d9 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -163,6 +163,7 @@ def _ApplyThresholdsAndTopK(  # pylint: disable=invalid-name
     input_dtype,
     info_threshold=float("-inf"),
     key_fn=None,
+    add_dummy_if_empty=True,
 ):
     """Applies `frequency_threshold` and `top_k` to (count, value) pairs."""
     # TODO(b/117796748): Filter frequency per-key when key feature input enabled.
@@ -231,13 +232,12 @@ def _ApplyThresholdsAndTopK(  # pylint: disable=invalid-name
             # output and fusion with the `FlattenList`. If changing this part of
             # implementation, either make sure that these hold true or adjust the
             # appropriate arg of `VocabularyOrderAndWrite` node.
-            counts = (
-                counts
-                | "Top(%s)" % top_k >> beam.combiners.Top.Of(top_k)
-                | "MaybeAddDummy"
-                >> beam.Map(maybe_add_empty_vocabulary_dummy, dtype=input_dtype)
-                | "FlattenList" >> beam.FlatMap(lambda lst: lst)
-            )
+            counts |= "Top(%s)" % top_k >> beam.combiners.Top.Of(top_k)
+            if add_dummy_if_empty:
+                counts |= "MaybeAddDummy" >> beam.Map(
+                    maybe_add_empty_vocabulary_dummy, dtype=input_dtype
+                )
+            counts |= "FlattenList" >> beam.FlatMap(lambda lst: lst)
             # LINT.ThenChange(../analyzers.py:input_is_sorted)
 
     return counts
@@ -454,6 +454,10 @@ class _VocabularyPruneImpl(beam.PTransform):
                 self._input_dtype,
                 self._informativeness_threshold,
                 None,
+                # With a coverage arm, an empty top-k arm does not make the
+                # vocabulary empty: the placeholder, if needed, is added when the
+                # merged arms are ordered and written.
+                add_dummy_if_empty=not self._key_fn,
             )
         )
 
-- 
2.43.0


From 6a61abd83e78466be3cf467a1fe679f08f287044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 06/25] fix: compare values and bucket boundaries in a dtype
 that can represent both

---
 tensorflow_transform/tf_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 6cc4625..e47a81b 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -852,12 +852,21 @@ def assign_buckets(
         flat_x = tf.reshape(x, [-1])
         flat_boundaries = tf.reshape(bucket_boundaries, [-1])
 
-        # Cast values or boundaries to the "largest" dtype to avoid truncating
-        # larger values and avoid casting if dtypes are the same.
+        # Cast values and boundaries to the "largest" dtype to avoid truncating
+        # larger values and avoid casting if dtypes are the same. If that dtype can't
+        # represent the other one (fractions, negative values or integers with more
+        # digits than a float has), cast both to float64.
         if flat_x.dtype.max > flat_boundaries.dtype.max:
-            flat_boundaries = tf.cast(flat_boundaries, flat_x.dtype)
+            dtype = flat_x.dtype
         else:
-            flat_x = tf.cast(flat_x, flat_boundaries.dtype)
+            dtype = flat_boundaries.dtype
+        if flat_x.dtype.is_floating != flat_boundaries.dtype.is_floating or (
+            dtype.is_unsigned
+            and not (flat_x.dtype.is_unsigned and flat_boundaries.dtype.is_unsigned)
+        ):
+            dtype = tf.float64
+        flat_x = tf.cast(flat_x, dtype)
+        flat_boundaries = tf.cast(flat_boundaries, dtype)
 
         if side == Side.LEFT:
             # Ignore the last boundary to replicate behavior of the previously used
-- 
2.43.0


From fb94cce3761f5335518725635c4e7d294f0adaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 07/25] fix: keep the offsets of keys out of bucketize_per_key
 with two buckets

---
 tensorflow_transform/mappers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index aede2b6..39be345 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -2126,14 +2126,19 @@ def _apply_buckets_with_keys(
         scale_factors = tf.gather(scale_factor_per_key, adjusted_key_indices)
         shifts = tf.gather(shift_per_key, adjusted_key_indices)
 
+        max_bucket = num_buckets - 1
+
         transformed_x = x_values * scale_factors + shifts
+        # With a single boundary per key there are no boundaries that separate the
+        # keys from each other, so the offset of the key has to be removed.
+        transformed_x -= tf.cast(adjusted_key_indices, tf.float32) * tf.cast(
+            max_bucket <= 1, tf.float32
+        )
 
         offset_buckets = tf_utils.assign_buckets(
             transformed_x, bucket_boundaries, side=tf_utils.Side.RIGHT
         )
 
-        max_bucket = num_buckets - 1
-
         # Shift the bucket numbers back to the correct range [0, num_buckets].
         # We use max_bucket-1 due to different keys sharing 1 boundary.
         corrected_buckets = offset_buckets - ((max_bucket - 1) * adjusted_key_indices)
-- 
2.43.0


From 53cd2cd1f1ce4793e36ef8a450251d22b2ffd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 08/25] fix: separate the bucket ranges of keys whose
 boundaries are all equal

---
 tensorflow_transform/beam/analyzer_impls.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 57b80d9..7631ea3 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -1252,7 +1252,15 @@ def _join_boundary_rows(
     # get: min[key_id] * scale[key_id] + shift[key_id] = key_id
     # Therefore shift is defined as:
     # shift[key_id] = key_id -  min[key_id] * scale[key_id]
-    shift = np.arange(scale.size, dtype=np.float32) - min_boundary * scale
+    key_offset = np.arange(scale.size, dtype=np.float32)
+    if boundary_matrix.shape[1] > 1:
+        # If all the boundaries of a key are equal (up to the precision of their
+        # dtype), then they take the place of its last boundary, because this is
+        # where the range of the next key starts.
+        is_constant = boundary_difference == 0
+        scale[is_constant] = 1.0 / np.spacing(np.abs(max_boundary[is_constant]))
+        key_offset[is_constant] += 1
+    shift = key_offset - min_boundary * scale
 
     scaled_buckets = boundary_matrix[:, 1:] * np.expand_dims(
         scale, axis=1
-- 
2.43.0


From 257f33378108be83b37ef6f3d1d27517f969444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 09/25] fix: reduce all instance dimensions in the mean and
 variance per key

---
 tensorflow_transform/tf_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index e47a81b..48e9770 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1796,11 +1796,16 @@ def reduce_batch_count_mean_and_var_per_key(
 
     finite_x = tf.where(x_is_finite, x, tf.zeros_like(x))
     if reduce_instance_dims:
+        instance_dims = tf.range(1, tf.rank(x))
         x_count = tf.cast(x_is_finite, x.dtype)
         if x.get_shape().ndims != 1:
-            x_count = tf.reduce_sum(x_count, axis=1)
+            x_count = tf.reduce_sum(x_count, axis=instance_dims)
         x_count = tf.math.unsorted_segment_sum(x_count, unique.idx, tf.size(unique.y))
-        sums = tf.reduce_sum(finite_x, axis=1) if x.get_shape().ndims != 1 else finite_x
+        sums = (
+            tf.reduce_sum(finite_x, axis=instance_dims)
+            if x.get_shape().ndims != 1
+            else finite_x
+        )
         sums = tf.math.unsorted_segment_sum(sums, unique.idx, tf.size(unique.y))
     else:
         sums = tf.math.unsorted_segment_sum(finite_x, unique.idx, tf.size(unique.y))
@@ -1813,7 +1818,7 @@ def reduce_batch_count_mean_and_var_per_key(
         tf.square(finite_x), unique.idx, tf.size(input=unique.y)
     )
     if sum_sqs.get_shape().ndims != 1 and reduce_instance_dims:
-        sum_sqs = tf.reduce_sum(sum_sqs, axis=1)
+        sum_sqs = tf.reduce_sum(sum_sqs, axis=instance_dims)
 
     variances = tf.math.divide_no_nan(sum_sqs, x_count) - tf.square(means)
 
-- 
2.43.0


From 30a165e62c993583325f67143675d1f164595e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 10/25] fix: keep keys with spaces apart from their values in
 the per-key vocabulary file

---
 tensorflow_transform/beam/analyzer_impls.py | 8 +++++++-
 tensorflow_transform/tf_utils.py            | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 7631ea3..6f255ea 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -1450,8 +1450,14 @@ class _CombinePerKeyFormatLargeImpl(beam.PTransform):
     def expand(self, inputs):
         to_str = tf.compat.as_str_any
         (pcoll,) = inputs
+        # Spaces within keys are encoded in the same way as spaces within tokens of
+        # a vocabulary with frequencies (see `maybe_format_vocabulary_input`), since
+        # a space separates the values from the key in the written file.
         return pcoll | "EncodeValueAndSwapWithKey" >> beam.MapTuple(
-            lambda k, v: (to_str(",".join(map(to_str, v))), k)
+            lambda k, v: (
+                to_str(",".join(map(to_str, v))),
+                tf.compat.as_bytes(k).replace(b" ", b"__SPACE__"),
+            )
         )
 
 
diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 48e9770..52c237a 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1051,8 +1051,9 @@ def apply_per_key_vocabulary(
         )
         return tf.lookup.StaticHashTable(initializer, default_value=default_value)
 
+    # Keys are written to the file with their spaces encoded.
     table_lookup, unused_table_size = construct_and_lookup_table(
-        _construct_table, per_key_filename, key
+        _construct_table, per_key_filename, maybe_format_vocabulary_input(key)
     )
 
     sparse_result = tf.compat.v1.strings.split(table_lookup, sep=",")
-- 
2.43.0


From c453fa884d05dc13aa15501f9698e88d5a243827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 11/25] fix: keep rounded boundaries of a key within the range
 of that key

---
 tensorflow_transform/beam/analyzer_impls.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 6f255ea..94dfe02 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -1257,14 +1257,18 @@ def _join_boundary_rows(
         # If all the boundaries of a key are equal (up to the precision of their
         # dtype), then they take the place of its last boundary, because this is
         # where the range of the next key starts.
-        is_constant = boundary_difference == 0
-        scale[is_constant] = 1.0 / np.spacing(np.abs(max_boundary[is_constant]))
+        spacing = np.spacing(np.maximum(np.abs(min_boundary), np.abs(max_boundary)))
+        is_constant = boundary_difference < 2 * spacing
+        scale[is_constant] = 0.5 / spacing[is_constant]
         key_offset[is_constant] += 1
     shift = key_offset - min_boundary * scale
 
     scaled_buckets = boundary_matrix[:, 1:] * np.expand_dims(
         scale, axis=1
     ) + np.expand_dims(shift, axis=1)
+    # Rounding must not move a boundary out of the range of its key.
+    key_range_start = np.expand_dims(np.arange(scale.size, dtype=np.float32), 1)
+    scaled_buckets = np.clip(scaled_buckets, key_range_start, key_range_start + 1)
     boundaries = np.insert(scaled_buckets.flatten(), 0, 0.0)
 
     return boundaries, scale, shift, num_buckets
-- 
2.43.0


From af42eb3a39e469a1db4a402862b1fca3b926cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 12/25] fix: CsvCoder writes a single falsy value of a
 variable-length array and accepts empty arrays

---
 tensorflow_transform/coders/csv_coder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 0774c7c..49818e7 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -109,7 +109,7 @@ class _VarLenFeatureHandler:
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(values)
         else:
-            string_list[self._index] = _to_string(values[0]) if values else ""
+            string_list[self._index] = _to_string(values[0]) if len(values) else ""
 
 
 class CsvCoder:
-- 
2.43.0


From 03206fd8f76d70ca91db785d6380396808533f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 13/25] fix: CsvCoder does not carry a record it failed to
 encode over to later calls

---
 tensorflow_transform/coders/csv_coder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 49818e7..0aea7cc 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -149,12 +149,13 @@ class CsvCoder:
             -------
               Bytes representation input.
             """
-            self._writer.writerow([_to_string(x) for x in record])
-            result = tf.compat.as_bytes(self._buffer.getvalue())
-            # Reset the buffer.
-            self._buffer.seek(0)
-            self._buffer.truncate(0)
-            return result
+            try:
+                self._writer.writerow([_to_string(x) for x in record])
+                return tf.compat.as_bytes(self._buffer.getvalue())
+            finally:
+                # Reset the buffer, also when the record could not be encoded.
+                self._buffer.seek(0)
+                self._buffer.truncate(0)
 
         def __getstate__(self):
             return self._state
-- 
2.43.0


From f95639af579b8ee43e022470b2a0915e2c7cc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 14/25] fix: CsvCoder rejects several values in a column that
 is not multivalent instead of dropping all but the first

---
 tensorflow_transform/coders/csv_coder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 0aea7cc..83255ab 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -82,6 +82,11 @@ class _FixedLenFeatureHandler:
 
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(flattened_values)
+        elif self._size != 1:
+            raise ValueError(
+                'FixedLenFeature "{}" has {} values but is not a multivalent '
+                "column".format(self._name, self._size)
+            )
         else:
             string_list[self._index] = _to_string(flattened_values[0])
 
@@ -108,8 +113,16 @@ class _VarLenFeatureHandler:
         """Encode the value of this feature into the CSV line."""
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(values)
+        elif values is None or len(values) == 0:
+            string_list[self._index] = ""
+        elif len(values) > 1:
+            raise ValueError(
+                'Column "{}" got {} values but is not a multivalent column'.format(
+                    self._name, len(values)
+                )
+            )
         else:
-            string_list[self._index] = _to_string(values[0]) if len(values) else ""
+            string_list[self._index] = _to_string(values[0])
 
 
 class CsvCoder:
-- 
2.43.0


From dbb277bfc496066318efddf7cbf27828cadf9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 15/25] fix: keep the domains of context and sequence features
 with the same name apart

---
 .../tf_metadata/schema_utils.py               | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/tensorflow_transform/tf_metadata/schema_utils.py b/tensorflow_transform/tf_metadata/schema_utils.py
index a19d515..323029c 100644
--- a/tensorflow_transform/tf_metadata/schema_utils.py
+++ b/tensorflow_transform/tf_metadata/schema_utils.py
@@ -15,7 +15,7 @@
 
 import dataclasses
 import typing
-from typing import Dict, List, Mapping, Optional, Tuple, Union
+from typing import Dict, Iterable, List, Mapping, Optional, Tuple, Union
 
 import tensorflow as tf
 from tensorflow_metadata.proto.v0 import path_pb2, schema_pb2
@@ -402,31 +402,45 @@ def _sequence_schema_as_feature_spec(
     )
     feature_spec = {**context_feature_spec, **sequence_feature_spec}
     string_domains = _get_string_domains(schema)
-    domain_by_feature_name = _get_source_feature_domains(schema, string_domains)
     domains = {}
-    for name, spec in feature_spec.items():
-        if isinstance(spec, (tf.io.FixedLenFeature, tf.io.VarLenFeature)):
-            source_feature_name = name
-        elif isinstance(spec, (tf.io.SparseFeature, tf.io.RaggedFeature)):
-            source_feature_name = spec.value_key
-        else:
-            raise ValueError("spec is not recognized")
-        if source_feature_name in domain_by_feature_name:
-            domains[name] = domain_by_feature_name[source_feature_name]
+    # A context feature and a sequence feature may have the same source name.
+    for is_sequence, specs in (
+        (False, context_feature_spec),
+        (True, sequence_feature_spec),
+    ):
+        domain_by_feature_name = _get_source_feature_domains(
+            [
+                feature
+                for feature in schema.feature
+                if (feature.type == schema_pb2.STRUCT) == is_sequence
+            ],
+            string_domains,
+        )
+        for name, spec in specs.items():
+            if isinstance(spec, (tf.io.FixedLenFeature, tf.io.VarLenFeature)):
+                source_feature_name = name
+            elif isinstance(spec, (tf.io.SparseFeature, tf.io.RaggedFeature)):
+                source_feature_name = spec.value_key
+            else:
+                raise ValueError("spec is not recognized")
+            if source_feature_name in domain_by_feature_name:
+                domains[name] = domain_by_feature_name[source_feature_name]
     return SchemaAsFeatureSpecResult(feature_spec, domains)
 
 
 def _get_source_feature_domains(
-    schema_or_domain: Union[schema_pb2.Schema, schema_pb2.StructDomain],
+    features: Iterable[schema_pb2.Feature],
     string_domains: Dict[str, schema_pb2.StringDomain],
 ) -> Dict[str, common_types.DomainType]:
-    """Recursively extracts domains of all source features in the schema."""
+    """Recursively extracts domains of the given source features."""
     result = {}
-    for feature in schema_or_domain.feature:
+    for feature in features:
         domain_info = feature.WhichOneof("domain_info")
         if domain_info == "struct_domain":
             result.update(
-                _get_source_feature_domains(feature.struct_domain, string_domains)
+                _get_source_feature_domains(
+                    feature.struct_domain.feature, string_domains
+                )
             )
         else:
             domain = _get_domain(feature, string_domains)
-- 
2.43.0


From 0785abc9ae9a7b44cdbe9d6dfb48c247c8b89e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 16/25] fix: record schema overrides of a tensor on every
 feature it is returned as

---
 tensorflow_transform/schema_inference.py | 44 +++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/tensorflow_transform/schema_inference.py b/tensorflow_transform/schema_inference.py
index ebd3ece..53699af 100644
--- a/tensorflow_transform/schema_inference.py
+++ b/tensorflow_transform/schema_inference.py
@@ -668,18 +668,18 @@ def _get_schema_annotations_common(tensor_annotation_keys, type_urls, proto_valu
     return tensor_annotations, global_annotations
 
 
-def _get_tensor_value_to_key_map(features_dict):
-    """Get reverse map from name of tensor values to key in `features_dict`."""
-    result = {}
+def _get_tensor_value_to_keys_map(features_dict):
+    """Get reverse map from name of tensor values to keys in `features_dict`."""
+    result = collections.defaultdict(list)
     for key, tensor in features_dict.items():
         values = _get_tensor_values(tensor)
-        result[values.name] = key
+        result[values.name].append(key)
     return result
 
 
 def _get_schema_overrides(
     graph,
-    tensor_name_to_key_map,
+    tensor_name_to_keys_map,
     tensor_collection_key,
     overrides_keys,
     default_tensor_name=None,
@@ -687,22 +687,22 @@ def _get_schema_overrides(
     """Obtain schema overrides from graph collections.
 
     For every tensor in the `tensor_collection_key` collection, the corresponding
-    feature name is in `tensor_name_to_key_map` and its schema overrides are in
+    feature names are in `tensor_name_to_keys_map` and its schema overrides are in
     the graph collections defined by keys in `overrides_keys`.
-    If a tensor does not exist in `tensor_name_to_key_map` but its name starts
+    If a tensor does not exist in `tensor_name_to_keys_map` but its name starts
     with `default_tensor_name` (if provided), the overrides are returned with this
     key.
 
     Args:
     ----
       graph: A `FuncGraph`.
-      tensor_name_to_key_map: A dictionary from tensor name to output feature key.
+      tensor_name_to_keys_map: A dictionary from tensor name to output feature keys.
       tensor_collection_key: Key for the graph collection that contains list of
         tensors to annotate.
       overrides_keys: A list of graph collection keys that contain schema
         overrides/annotations.
       default_tensor_name: (Optional) A String. If provided, use as feature key if
-        a tensor in the graph collections is not in `tensor_name_to_key_map`.
+        a tensor in the graph collections is not in `tensor_name_to_keys_map`.
 
     Returns:
     -------
@@ -722,8 +722,8 @@ def _get_schema_overrides(
             f" {overrides_list}"
         )
     for tensor, overrides_tuple in zip(tensors, zip(*overrides_list)):
-        if tensor.name in tensor_name_to_key_map:
-            result[tensor_collection_key].append(tensor_name_to_key_map[tensor.name])
+        if tensor.name in tensor_name_to_keys_map:
+            keys = tensor_name_to_keys_map[tensor.name]
         else:
             if default_tensor_name is None:
                 continue
@@ -731,15 +731,17 @@ def _get_schema_overrides(
             if tensor.dtype == tf.string and tensor_name.startswith(
                 default_tensor_name
             ):
-                result[tensor_collection_key].append(default_tensor_name)
+                keys = [default_tensor_name]
             else:
                 continue
 
-        # If a feature name was added to the result list for tensor_collection_key,
-        # add its annotations as well.
+        # For every feature name added to the result list for
+        # tensor_collection_key, add its annotations as well.
         assert len(overrides_keys) == len(overrides_tuple)
-        for overrides_key, override in zip(overrides_keys, overrides_tuple):
-            result[overrides_key].append(override)
+        for key in keys:
+            result[tensor_collection_key].append(key)
+            for overrides_key, override in zip(overrides_keys, overrides_tuple):
+                result[overrides_key].append(override)
     return result
 
 
@@ -791,7 +793,7 @@ def get_traced_metadata_fn(
             transformed_features = preprocessing_fn(inputs)
 
         # Get a map from tensor value names to feature keys.
-        reversed_features = _get_tensor_value_to_key_map(transformed_features)
+        reversed_features = _get_tensor_value_to_keys_map(transformed_features)
 
         result = collections.defaultdict(list)
         if not evaluate_schema_overrides:
@@ -800,7 +802,7 @@ def get_traced_metadata_fn(
             )
             for tensor in schema_override_tensors:
                 if tensor.name in reversed_features:
-                    result[_TF_METADATA_TENSOR_COLLECTION].append(
+                    result[_TF_METADATA_TENSOR_COLLECTION].extend(
                         reversed_features[tensor.name]
                     )
         else:
@@ -916,11 +918,11 @@ def _get_sparse_output_annotations_v1(
 
 
 def _get_sparse_output_annotations_v2(
-    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, str]
+    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, List[str]]
 ) -> Dict[str, List[Union[str, tf.Tensor]]]:
     annotations = _get_sparse_output_annotations(graph)
     result = {}
     for tensor, v in annotations:
-        if tensor.name in tensor_to_feature_names:
-            result[tensor_to_feature_names[tensor.name]] = v
+        for feature_name in tensor_to_feature_names.get(tensor.name, []):
+            result[feature_name] = v
     return result
-- 
2.43.0


From 47d6ca4a82768e2fd8f77aa2371fcae1c25fc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 17/25] fix: annotate accepts the sparse tensors its check
 admits

---
 tensorflow_transform/schema_inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorflow_transform/schema_inference.py b/tensorflow_transform/schema_inference.py
index 53699af..1c3eb1b 100644
--- a/tensorflow_transform/schema_inference.py
+++ b/tensorflow_transform/schema_inference.py
@@ -538,6 +538,8 @@ def annotate(type_url, proto_message, tensor=None):
         raise ValueError("tensor {} was not a Tensor".format(tensor))
     if not isinstance(proto_message, tf.Tensor):
         raise ValueError("proto_message {} was not a Tensor".format(proto_message))
+    # Features are identified by their values.
+    tensor = _get_tensor_values(tensor)
 
     # If the type_url is passed as a plain string, create a string tensor.
     if not isinstance(type_url, tf.Tensor):
-- 
2.43.0


From 190e864e3f78b3762c50cabd954aefa062669a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 18/25] fix: include the type of an operation in the analyzer
 cache hash

---
 tensorflow_transform/graph_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 0792016..3339f9b 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -953,7 +953,9 @@ def describe_path_as_analyzer_cache_hash(
         return None
 
     if isinstance(x, tf.Operation):
-        values = _serialize_op_attr(x.node_def.attr)
+        # Different operations may have the same attributes, e.g. addition and
+        # subtraction.
+        values = [x.type] + _serialize_op_attr(x.node_def.attr)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From 575024e20376ffc942add0a120ab2387c594c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 19/25] fix: do not share analyzer cache between Python
 functions with the same token

---
 tensorflow_transform/graph_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 3339f9b..93fd4fa 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -46,6 +46,9 @@ from tensorflow_transform import analyzer_nodes, common_types, nodes, tf_utils
 
 # pylint: enable=g-direct-tensorflow-import
 
+# Operations that call a Python function.
+_PY_FUNC_OP_TYPES = ("PyFunc", "PyFuncStateless", "EagerPyFunc")
+
 _INITIALIZABLE_TABLE_OP_TYPES = [
     "CuckooTable",
     "CuckooTableV2",
@@ -956,6 +959,11 @@ def describe_path_as_analyzer_cache_hash(
         # Different operations may have the same attributes, e.g. addition and
         # subtraction.
         values = [x.type] + _serialize_op_attr(x.node_def.attr)
+        if x.type in _PY_FUNC_OP_TYPES:
+            # The attributes only hold a token that other functions may have in
+            # other processes. Since the function itself is not visible we insert a
+            # random string, as for functions whose graph is not visible.
+            values.append(uuid.uuid4().hex)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From ff7da34349fca4e2624b323dbc92af4872693d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 20/25] fix: analyze graph loops with several variables
 completely

---
 tensorflow_transform/graph_tools.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 93fd4fa..13b5330 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -445,18 +445,22 @@ class _GraphAnalyzer:
         # valid while loop and so it will be able to run as long as all the other
         # parents are ready.
         path = set()
+        # Maps nodes in a loop to the nodes in `path` whose result theirs does not
+        # contain yet. Such results are only used for the nodes in `path`.
+        incomplete = {}
         while stack:
             current = stack[-1]
             if current in self._memoized_analyze_tensor_result:
                 stack.pop()
                 continue
             path.add(current)
-            parents = self._get_parents(tf_utils.deref_tensor_or_op(current))
-            parents = [
-                parent
-                for parent in map(tf_utils.hashable_tensor_or_op, parents)
-                if parent not in path
-            ]
+            all_parents = list(
+                map(
+                    tf_utils.hashable_tensor_or_op,
+                    self._get_parents(tf_utils.deref_tensor_or_op(current)),
+                )
+            )
+            parents = [parent for parent in all_parents if parent not in path]
             if all(
                 parent in self._memoized_analyze_tensor_result for parent in parents
             ):
@@ -468,6 +472,18 @@ class _GraphAnalyzer:
                 )
                 self._memoized_analyze_tensor_result[current] = current_result
                 path.discard(stack.pop())
+                missing = path.intersection(all_parents).union(
+                    *(incomplete.get(parent, ()) for parent in parents)
+                )
+                missing.discard(current)
+                for node in [n for n in incomplete if current in incomplete[n]]:
+                    incomplete[node] = (incomplete[node] - {current}) | missing
+                    if not incomplete[node]:
+                        # To be analyzed again now that the loop is, if needed.
+                        del incomplete[node]
+                        del self._memoized_analyze_tensor_result[node]
+                if missing:
+                    incomplete[current] = missing
             else:
                 stack.extend(parents)
         return self._memoized_analyze_tensor_result[
-- 
2.43.0


From adb1cb9784d8fd7b0c4d38d487d791e94e865418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 21/25] fix: tfidf fails when the vocabulary has a single term

---
 tensorflow_transform/mappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index 39be345..9df0fd3 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -967,7 +967,7 @@ def _to_tfidf(
     idf = tf_utils.document_frequency_to_idf(
         reduced_term_freq, corpus_size, smooth=smooth, add_baseline=True
     )
-    gathered_idfs = tf.gather(tf.squeeze(idf), term_frequency.indices[:, 1])
+    gathered_idfs = tf.gather(tf.reshape(idf, [-1]), term_frequency.indices[:, 1])
     tfidf_values = tf.cast(term_frequency.values, tf.float32) * tf.cast(
         gathered_idfs, tf.float32
     )
-- 
2.43.0


From be62a4397d685d49cabbc89b135a9c7832804552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 22/25] fix: do not let the per-key variance become negative by
 rounding

The variance of a key is computed as the difference of the mean of the squares
and the square of the mean, which is negative for many keys whose values are all
equal, and scale_to_z_score_per_key then returned NaN.
---
 tensorflow_transform/tf_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 52c237a..46f4655 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1821,7 +1821,10 @@ def reduce_batch_count_mean_and_var_per_key(
     if sum_sqs.get_shape().ndims != 1 and reduce_instance_dims:
         sum_sqs = tf.reduce_sum(sum_sqs, axis=instance_dims)
 
-    variances = tf.math.divide_no_nan(sum_sqs, x_count) - tf.square(means)
+    # The difference of the two might be negative due to rounding.
+    variances = tf.maximum(
+        tf.math.divide_no_nan(sum_sqs, x_count) - tf.square(means), 0
+    )
 
     return unique.y, tf.cast(x_count, tf.int64), means, variances
 
-- 
2.43.0


From 999445db45811184960e6cfe43bbbf4d31ed409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 23/25] fix: count infinities as values for the extrema of a
 sparse tensor

---
 tensorflow_transform/tf_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 46f4655..91a9916 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1975,7 +1975,12 @@ def _sparse_minus_reduce_min_and_reduce_max(
     minus_x = tf.SparseTensor(
         indices=x.indices, values=0 - x.values, dense_shape=x.dense_shape
     )
-    x_count = reduce_batch_count(x, reduce_instance_dims=False)
+    # Infinite values are values, but are not counted. The sign of NaN is NaN.
+    sign_x = x.with_values(tf.sign(x.values))
+    # TODO(b/178189903): Remove this once we no longer lose static shape
+    # information.
+    sign_x._dense_shape_default = x._dense_shape_default  # pylint: disable=protected-access
+    x_count = reduce_batch_count(sign_x, reduce_instance_dims=False)
     batch_has_no_values = tf.equal(x_count, tf.constant(0, dtype=tf.int64))
     x_batch_max = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_max, x)
     x_batch_minus_min = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_max, minus_x)
-- 
2.43.0


From ecedcbc053648167466d50e6772ceba269782546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:59 +0000
Subject: [PATCH 24/25] fix: do not share cache entries of sketches built with
 different parameters

The cache key of an accumulation holds the class of its combiner only, so that
quantiles with a smaller epsilon (or an approximate vocabulary with a larger
top_k) were computed from the coarser sketches another analysis had left in the
cache. The parameter of the sketch is now a part of the name of its coder, which
is hashed into the key.
---
 tensorflow_transform/analyzers.py              | 10 +++++++++-
 tensorflow_transform/experimental/analyzers.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 32b95b5..263fc9a 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2484,12 +2484,20 @@ class QuantilesCombiner(analyzer_nodes.Combiner):
 
     @property
     def accumulator_coder(self):
-        return _QuantilesSketchCacheCoder()
+        return _QuantilesSketchCacheCoder(self._epsilon)
 
 
 class _QuantilesSketchCacheCoder(analyzer_nodes.CacheCoder):
     """Cache coder for the quantiles accumulator."""
 
+    def __init__(self, epsilon=None):
+        self._epsilon = epsilon
+
+    def __repr__(self):
+        # This is a part of the cache key: a sketch can only be used for the precision
+        # that it was built for.
+        return f"<{self.__class__.__name__}[{self._epsilon}]>"
+
     def encode_cache(self, accumulator):
         return pickle.dumps(accumulator)
 
diff --git a/tensorflow_transform/experimental/analyzers.py b/tensorflow_transform/experimental/analyzers.py
index 1de0735..fc271ea 100644
--- a/tensorflow_transform/experimental/analyzers.py
+++ b/tensorflow_transform/experimental/analyzers.py
@@ -518,6 +518,14 @@ def _approximate_vocabulary_analyzer_nodes(
 class _MisraGriesSketchCoder(analyzer_nodes.CacheCoder):
     """Cache coder for the approximate vocabulary accumulator."""
 
+    def __init__(self, top_k: Optional[int] = None):
+        self._top_k = top_k
+
+    def __repr__(self):
+        # This is a part of the cache key: a sketch can only be used for the number
+        # of tokens that it was built for.
+        return f"<{self.__class__.__name__}[{self._top_k}]>"
+
     def encode_cache(self, accumulator: sketches.MisraGriesSketch) -> bytes:
         return accumulator.Serialize()
 
@@ -585,7 +593,7 @@ class _VocabularyCombiner(analyzer_nodes.Combiner):
 
     @property
     def accumulator_coder(self) -> _MisraGriesSketchCoder:
-        return _MisraGriesSketchCoder()
+        return _MisraGriesSketchCoder(self._top_k)
 
 
 def _get_approximate_vocabulary_analyzer_inputs(
-- 
2.43.0


From c94e1df0ef92761f6c3f4470f1c1db823fed9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:49 +0000
Subject: [PATCH 25/25] fix: do not share tables between saved transforms
 applied in one session

---
 .../saved/saved_transform_io.py               | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tensorflow_transform/saved/saved_transform_io.py b/tensorflow_transform/saved/saved_transform_io.py
index f821eb3..645b61f 100644
--- a/tensorflow_transform/saved/saved_transform_io.py
+++ b/tensorflow_transform/saved/saved_transform_io.py
@@ -123,6 +123,26 @@ def _load_transform_saved_model(transform_savedmodel_dir):
     return meta_graph_def, input_signature, output_signature, asset_path_dict
 
 
+def _scope_shared_names(meta_graph_def, saved_model_dir):
+    """Makes the shared names of resources specific to a saved model.
+
+    Resources are shared by name within a session, and within a process when
+    executing eagerly. The shared name of a table initialized from an asset does not
+    depend on the path of the asset, so without this the tables of different saved
+    models would be the same resource.
+
+    Args:
+    ----
+      meta_graph_def: The `MetaGraphDef` to be imported, it is modified in place.
+      saved_model_dir: The SavedModel directory it was loaded from.
+    """
+    prefix = tf.compat.as_bytes(os.fspath(saved_model_dir)) + b"/"
+    for node in meta_graph_def.graph_def.node:
+        shared_name = node.attr["shared_name"].s if "shared_name" in node.attr else b""
+        if shared_name:
+            node.attr["shared_name"].s = prefix + shared_name
+
+
 def _expand_input_map(logical_input_map, input_signature):
     """Expands user provided inputs to component tensors in the graph.
 
@@ -239,6 +259,7 @@ def _partially_apply_saved_transform_impl(
         _load_transform_saved_model(saved_model_dir)
     )
     asset_tensor_dict = {k: tf.convert_to_tensor(v) for k, v in asset_path_dict.items()}
+    _scope_shared_names(meta_graph_def, saved_model_dir)
 
     # Check for inputs that were not part of the input signature.
     unexpected_inputs = set(logical_input_map.keys()) - set(input_signature.keys())
-- 
2.43.0

