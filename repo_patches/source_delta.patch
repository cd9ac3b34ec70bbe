From bcb7c388e3c1774b286e8d8f9409a5495b7c323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:26 +0000
Subject: [PATCH 01/35] fix: use builtin int instead of removed np.int in
 initializers

numpy dropped the np.int alias in 1.24, so every initializer raised AttributeError.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 3a9e0c07d54f9fa1da17a720c29dbb9aef9caabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 02/35] fix: detect batch in the last argument of bilinear_form

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..a6b2a28 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1083,7 +1083,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From 1cf0d352ed8afc062cde1d9353e2f051822d0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 03/35] fix: support batches in bilinear_form_two_mat

The batch index shared a letter with a mode index, and the last argument was never recognized as a batch.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index a6b2a28..702ba70 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1148,10 +1148,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 'q' if x_is_batch else ''
+  y_bs_str = 'q' if y_is_batch else ''
+  out_bs_str = 'q' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From c1f575f35e55e71233b54fbf081441d1a7c8369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 04/35] fix: keep the batch axis of bilinear forms for batches
 of size 1

---
 t3f/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 702ba70..5187ae6 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1115,7 +1115,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-3, -2, -1])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1184,7 +1184,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-4, -3, -2, -1])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From 8807dfde807022889058e9f8cde12ad24581b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 05/35] fix: add a TensorTrainBatch to a TensorTrain

add(tt, batch) and add(one_element_batch, tt) raised because the batch size was requested from the TensorTrain argument.
---
 t3f/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 5187ae6..f12ccc6 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,7 +579,8 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  a_broadcasts = not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1
+  if a_broadcasts and isinstance(tt_b, TensorTrainBatch):
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
@@ -651,7 +652,8 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  a_broadcasts = not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1
+  if a_broadcasts and isinstance(tt_b, TensorTrainBatch):
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
-- 
2.43.0


From 93dbd1a17fd83040878b6e123094813c4dae4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 06/35] fix: accept unrestricted and per-rank max_tt_rank in
 decompositions

round(tt) with the default max_tt_rank raised TypeError, the documented max_tt_rank=np.inf overflowed, and rounding a batch did not accept a list of ranks.
---
 t3f/decompositions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..008a98b 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -96,6 +96,13 @@ def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
     return TensorTrain(tt_cores, shape, tt_tens.get_tt_ranks())
 
 
+def _max_tt_rank_to_int(max_tt_rank):
+  """Converts max_tt_rank to integers, None and np.inf mean no restriction."""
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 # TODO: implement epsilon.
 def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
                  name='t3f_to_tt_tensor'):
@@ -143,7 +150,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -247,7 +254,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,8 +329,8 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
-  if max_tt_rank < 1:
+  max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From b20c093b779781758bffb2221d0da4838149bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 07/35] fix: support indices with more than 2 dimensions in
 gather_nd

---
 t3f/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index f12ccc6..345328a 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1259,6 +1259,8 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
+    out_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
     tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
@@ -1271,7 +1273,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, out_shape)
     return tt_elements
 
 
-- 
2.43.0


From bb19818c51212ea770a7d055adfb50c3a14215c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 08/35] fix: keep both batch axes of pairwise_flat_inner for
 batches of size 1

---
 t3f/batch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..864cc29 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.squeeze(res, list(range(2, len(res.get_shape()))))
-- 
2.43.0


From 5f01ae745c9bf691eb055f6c5d23df2dfb765aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 09/35] fix: use TF 2 name_scope and logging in regularizers

---
 t3f/regularizers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..645fbba 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -25,12 +25,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +60,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From 9bbd5c74f946f26dc9319cb953157f3f6b0fac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 10/35] fix: support regularizer in get_variable in the eager
 mode

Tensor.name is not available for eager tensors.
---
 t3f/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..0594fd5 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -107,8 +107,8 @@ def get_variable(name,
       with tf.name_scope(name + "/Regularizer/"):
         loss = regularizer(v)
       if loss is not None:
-        tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+        tf.logging.vlog(1, "Applied regularizer to %s and added the result "
+                        "to REGULARIZATION_LOSSES.", v.name)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From 12aa0f803337dcccb1ec3b2984e0ccbb0b456b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 11/35] fix: raise ValueError on missing get_variable
 initializer in the eager mode

---
 t3f/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 0594fd5..02bedbd 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -51,13 +51,14 @@ def get_variable(name,
   # but ignore the ranks.
   # TODO: add validate ranks flag.
 
-  reuse = tf.get_variable_scope().reuse
+  # In the eager mode variables are never reused.
+  reuse = tf.get_variable_scope().reuse and not utils.in_eager_mode()
   if not reuse and initializer is None:
     raise ValueError('Scope reuse is False and initializer is not provided.')
 
   variable_cores = []
 
-  if reuse and not utils.in_eager_mode():
+  if reuse:
     # Find an existing variable in the collection.
     path = tf.get_variable_scope().name
     if path != '' and path[-1] != '/':
-- 
2.43.0


From 9fcd898d66df122aeb48046bef98f2f39d293141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 12/35] fix: formatting of shapes mismatch error in
 tt_dense_matmul

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 345328a..f947f3b 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -203,7 +203,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From e93388c419d898ae3e337707f7d0f82d5ca6d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 13/35] fix: Riemannian gradients at points with excessive
 TT-ranks

Left and right orthogonalization can produce different TT-ranks.
---
 t3f/autodiff.py   | 6 ++++--
 t3f/riemannian.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..b451494 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -27,9 +27,11 @@ def _enforce_gauge_conditions(deltas, left):
     q = tf.reshape(left.tt_cores[i], (-1, right_r))
     if i < left.ndims() - 1:
       proj_delta = deltas[i]
-      proj_delta = tf.reshape(proj_delta, (-1, right_r))
+      # The right TT-rank of the delta can be smaller than the one of left.
+      delta_shape = proj_delta.shape
+      proj_delta = tf.reshape(proj_delta, (-1, delta_shape[-1]))
       proj_delta -= tf.matmul(q, tf.matmul(tf.transpose(q), proj_delta))
-      proj_delta = tf.reshape(proj_delta, left.tt_cores[i].shape)
+      proj_delta = tf.reshape(proj_delta, delta_shape)
     else:
       proj_delta = deltas[i]
     proj_deltas.append(proj_delta)
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..4228e2f 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -838,7 +838,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-    right_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
+    right_tangent_tt_ranks = shapes.lazy_tt_ranks(right)
     raw_shape = shapes.lazy_raw_shape(left)
     right_rank_dim = left.right_tt_rank_dim
     left_rank_dim = left.left_tt_rank_dim
-- 
2.43.0


From 9a463bf8019552852c798b53c0b3e3c637068891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 14/35] fix: do not fail the autodiff runtime check when the
 function value is 0

---
 t3f/autodiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index b451494..c4a1edd 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -60,11 +60,11 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  is_close = tf.abs(f_value_1 - f_value_2) <= 1e-5 * tf.abs(f_value_1)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
+  assert_op = tf.Assert(is_close, [err_msg, f_value_1, f_value_2],
                         name=name)
   return assert_op
 
-- 
2.43.0


From 5e482a694b78fcd6b11b1843ff785234ae85f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 15/35] fix: support unknown batch size in the kronecker module

---
 t3f/kronecker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..f0601aa 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -28,7 +28,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     raise ValueError('The argument should be a Kronecker product (tt-ranks '
                      'should be 1)')
 
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -81,7 +81,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
  
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -137,7 +137,7 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
@@ -195,7 +195,7 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
-- 
2.43.0


From e25b0dd73efd5d264d383fe708f942612cf90cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 16/35] fix: shapes of one-dimensional tensors and one-factor
 matrices

Squeezing removed the only dimension, so that a 1-d tensor shape raised TypeError.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From 1e5986f93eb470380d5fdd05b7a094f62a216554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:07 +0000
Subject: [PATCH 17/35] fix: default session lookup in eval under TF 2

---
 t3f/tensor_train_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index f4c25b7..2ed426c 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -122,7 +122,7 @@ class TensorTrainBase(object):
     """
     # TODO: implement feed_dict
     if session is None:
-      session = tf.get_default_session()
+      session = tf.compat.v1.get_default_session()
     session.run(self.tt_cores)
 
   # TODO: do we need this?
-- 
2.43.0


From 7a2a3d68832ab899f0a8a4b2cd3f7b8485e65fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:42 +0000
Subject: [PATCH 18/35] fix: addition of one-dimensional TT-objects

The only core is both the first and the last one, so its ranks must stay 1.
---
 t3f/approximate.py |  4 +++-
 t3f/ops.py         | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..e7f86d2 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,9 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
diff --git a/t3f/ops.py b/t3f/ops.py
index f947f3b..ac677bb 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -596,7 +598,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -626,7 +630,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -669,7 +675,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From dfbadad6279f2c8728d760bdd679734d9b68ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:42 +0000
Subject: [PATCH 19/35] fix: project_matmul of a single TensorTrain

The documented non-batch argument raised ValueError.
---
 t3f/riemannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 4228e2f..a5228a6 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -493,6 +493,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = tf.squeeze(proj_core, 0)
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From b5c2f298c0b2b4716b25defea28f4626747ef16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:42 +0000
Subject: [PATCH 20/35] fix: reject TT-cores inconsistent in number of axes,
 length of shape, or batch size

---
 t3f/tensor_train.py       |  7 +++++++
 t3f/tensor_train_batch.py | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..9fb22e9 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -161,6 +161,13 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape())
+    if num_core_dims != 3 and num_core_dims != 4:
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 2 or any(len(s) != num_dims for s in shape):
+        # The number of TT-cores or their axes doesn't match the given shape.
+        return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..6502ff1 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -294,6 +294,13 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_dims = len(tt_cores[0].get_shape())
+    if num_core_dims != 4 and num_core_dims != 5:
+      return False
+    if shape is not None:
+      if len(shape) != num_core_dims - 3 or any(len(s) != num_dims for s in shape):
+        # The number of TT-cores or their axes doesn't match the given shape.
+        return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
@@ -311,6 +318,10 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
+        if curr_core_shape[0] is not None and prev_core_shape[0] is not None:
+          if curr_core_shape[0] != prev_core_shape[0]:
+            # The batch sizes of the TT-cores are different.
+            return False
         if curr_core_shape[1] != prev_core_shape[-1]:
           # TT-ranks are inconsistent.
           return False
-- 
2.43.0


From b92a9e050bf42ee57cdf073299e64cb5aaef55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:25 +0000
Subject: [PATCH 21/35] fix: initial deltas of Riemannian autodiff at points
 with excessive TT-ranks

---
 t3f/autodiff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index c4a1edd..dbd31d0 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -109,7 +109,8 @@ def gradients(func, x, name='t3f_gradients', runtime_check=True):
     left = decompositions.orthogonalize_tt_cores(x)
     right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     deltas = [right.tt_cores[0]]
-    deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
+    deltas += [tf.zeros_like(l[..., :r.shape[-1]])
+               for l, r in zip(left.tt_cores[1:], right.tt_cores[1:])]
 
     def augmented_func(d):
       x_projection = riemannian.deltas_to_tangent_space(d, x, left, right)
@@ -174,7 +175,8 @@ def hessian_vector_product(func, x, vector, name='t3f_hessian_vector_product',
     left = decompositions.orthogonalize_tt_cores(x)
     right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     deltas = [right.tt_cores[0]]
-    deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
+    deltas += [tf.zeros_like(l[..., :r.shape[-1]])
+               for l, r in zip(left.tt_cores[1:], right.tt_cores[1:])]
 
     def augmented_outer_func(deltas_outer):
 
-- 
2.43.0


From f3f3e7b5b8230ccb9ca1a0b9c0a3e96ff07acc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:18 +0000
Subject: [PATCH 22/35] fix: keep double precision when multiplying a TT-object
 by a number

---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index ac677bb..2316ac6 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -792,6 +792,9 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # To squash right uniformly across TT-cores we pull its absolute value
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
+      if not tf.is_tensor(right):
+        # By default, Python floats are converted into float32.
+        right = tf.convert_to_tensor(right, dtype=tt_left.dtype)
       tt_cores = list(tt_left.tt_cores)
       fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
       sign = tf.cast(tf.sign(right), tt_left.dtype)
-- 
2.43.0


From e5ca5aad6734d74f63fb13919de5add2bb40c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:54:34 +0000
Subject: [PATCH 23/35] fix: keep the batch axis of matmul and flat_inner for
 batches of size 1

---
 t3f/ops.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 2316ac6..4bd07f8 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  has_batch_arg = isinstance(tt_matrix_a, TensorTrainBatch) or \
+      isinstance(tt_matrix_b, TensorTrainBatch)
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
@@ -182,7 +184,9 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   else:
-    return TensorTrain(result_cores, res_shape, out_ranks)
+    res = TensorTrain(result_cores, res_shape, out_ranks)
+    # Batches of size 1 still have to yield a batch.
+    return shapes.expand_batch_dim(res) if has_batch_arg else res
 
 
 def tt_dense_matmul(tt_matrix_a, matrix_b):
@@ -368,6 +372,8 @@ def tt_tt_flat_inner(tt_a, tt_b):
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
   axes_str = 'ij' if are_both_matrices else 'i'
+  has_batch_arg = isinstance(tt_a, TensorTrainBatch) or \
+      isinstance(tt_b, TensorTrainBatch)
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_a = shapes.squeeze_batch_dim(tt_a)
   tt_b = shapes.squeeze_batch_dim(tt_b)
@@ -397,7 +403,11 @@ def tt_tt_flat_inner(tt_a, tt_b):
     # if both arguments are TT-tensors, then it is
     # res = tf.einsum('ac,aib,cid->bd', res, a_core, b_core)
     res = tf.einsum(einsum_str, res, a_core, b_core)
-  return tf.squeeze(res)
+  res = tf.squeeze(res, [-2, -1])
+  if has_batch_arg and not is_res_batch:
+    # Batches of size 1 still have to yield a number per batch element.
+    res = tf.expand_dims(res, 0)
+  return res
 
 
 def tt_dense_flat_inner(tt_a, dense_b):
-- 
2.43.0


From 208160424dc3b9aba03f7a8b433223cde6e2784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:36:43 +0000
Subject: [PATCH 24/35] fix: check the shapes of all TT-cores before assigning
 any of them

---
 t3f/variables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/t3f/variables.py b/t3f/variables.py
index 02bedbd..d41a00e 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -118,6 +118,16 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
   new_cores = []
   if name is None:
     name = ''
+  # Check everything beforehand: assigning the cores one by one and failing in
+  # the middle would leave the variable in an inconsistent state.
+  shapes_match = ref.ndims() == value.ndims() and all(
+      r.get_shape().is_compatible_with(v.get_shape())
+      for r, v in zip(ref.tt_cores, value.tt_cores))
+  if not shapes_match:
+    raise ValueError('The shapes of the TT-cores of the variable and of the '
+                     'assigned value should coincide, got %s and %s.' %
+                     ([r.get_shape() for r in ref.tt_cores],
+                      [v.get_shape() for v in value.tt_cores]))
   with tf.variable_scope(name):
     for i in range(ref.ndims()):
       new_cores.append(tf.assign(ref.tt_cores[i], value.tt_cores[i],
-- 
2.43.0


From eae9d8caaf9343cfcbef8b1712e254396868e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:16 +0000
Subject: [PATCH 25/35] fix: compute all TT-cores of the new value before
 assigning any of them

---
 t3f/variables.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index d41a00e..5d1e182 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -129,9 +129,13 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
                      ([r.get_shape() for r in ref.tt_cores],
                       [v.get_shape() for v in value.tt_cores]))
   with tf.variable_scope(name):
-    for i in range(ref.ndims()):
-      new_cores.append(tf.assign(ref.tt_cores[i], value.tt_cores[i],
-                                 use_locking=use_locking))
+    # The value may depend on the variable itself, so compute all its cores
+    # before overwriting any core of the variable.
+    value_cores = [tf.convert_to_tensor(core) for core in value.tt_cores]
+    with tf.control_dependencies(value_cores):
+      for i in range(ref.ndims()):
+        new_cores.append(tf.assign(ref.tt_cores[i], value_cores[i],
+                                   use_locking=use_locking))
   if isinstance(value, TensorTrainBatch):
     return TensorTrainBatch(new_cores, value.get_raw_shape(),
                             value.get_tt_ranks(), value.batch_size,
-- 
2.43.0


From 477de03d753754124c82af5a9c4f4e6ffad88909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:40 +0000
Subject: [PATCH 26/35] fix: reject operands of inconsistent shapes in matmul,
 flat_inner and bilinear forms

---
 t3f/ops.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 4bd07f8..94f1d3d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,13 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  columns_a = tt_matrix_a.get_raw_shape()[1]
+  rows_b = tt_matrix_b.get_raw_shape()[0]
+  if not columns_a.is_compatible_with(rows_b):
+    raise ValueError('The column shape of the first argument should coincide '
+                     'with the row shape of the second, got %s and %s instead.'
+                     % (columns_a, rows_b))
+
   has_batch_arg = isinstance(tt_matrix_a, TensorTrainBatch) or \
       isinstance(tt_matrix_b, TensorTrainBatch)
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
@@ -364,13 +371,16 @@ def tt_tt_flat_inner(tt_a, tt_b):
     raise ValueError('The batch sizes are different and not 1, broadcasting is '
                      'not available.')
 
-  # TODO: compare shapes and raise if not consistent.
-
   ndims = tt_a.ndims()
   if tt_b.ndims() != ndims:
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
+  for shape_a, shape_b in zip(tt_a.get_raw_shape(), tt_b.get_raw_shape()):
+    if not shape_a.is_compatible_with(shape_b):
+      raise ValueError('Arguments should have the same shape, got %s and %s '
+                       'instead.' % (shape_a, shape_b))
+
   axes_str = 'ij' if are_both_matrices else 'i'
   has_batch_arg = isinstance(tt_a, TensorTrainBatch) or \
       isinstance(tt_b, TensorTrainBatch)
@@ -1105,6 +1115,12 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
   if not isinstance(c, TensorTrainBase) or not c.is_tt_matrix():
     raise ValueError('The arguments should be a TT-matrix.')
 
+  rows, columns = A.get_raw_shape()
+  if not (rows.is_compatible_with(b.get_raw_shape()[0]) and
+          columns.is_compatible_with(c.get_raw_shape()[0])):
+    raise ValueError('The shapes of the arguments are not consistent, got '
+                     '%s, %s, and %s.' % (A, b, c))
+
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
@@ -1170,6 +1186,13 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     if not isinstance(vec, TensorTrainBase) or not vec.is_tt_matrix():
       raise ValueError('The arguments should be a TT-matrix.')
 
+  all_raw_shapes = [tt.get_raw_shape() for tt in (x, A, B, y)]
+  if not (all_raw_shapes[0][0].is_compatible_with(all_raw_shapes[1][0]) and
+          all_raw_shapes[1][1].is_compatible_with(all_raw_shapes[2][0]) and
+          all_raw_shapes[2][1].is_compatible_with(all_raw_shapes[3][0])):
+    raise ValueError('The shapes of the arguments are not consistent, got '
+                     '%s, %s, %s, and %s.' % (x, A, B, y))
+
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
   x_bs_str = 'q' if x_is_batch else ''
-- 
2.43.0


From a6b49bb5ed1ffe8d91873a46721850811a47a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:40 +0000
Subject: [PATCH 27/35] fix: reject different shapes in pairwise_flat_inner

---
 t3f/batch_ops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index 864cc29..b418a64 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -164,6 +164,11 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
   with tf.name_scope(name):
     ndims = tt_1.ndims()
     if matrix is None:
+      if tt_1.is_tt_matrix() != tt_2.is_tt_matrix() or not all(
+          s_1.is_compatible_with(s_2) for s_1, s_2 in
+          zip(tt_1.get_raw_shape(), tt_2.get_raw_shape())):
+        raise ValueError('The arguments should have the same shape, got %s '
+                         'and %s.' % (tt_1, tt_2))
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
       mode_string = 'ij' if tt_1.is_tt_matrix() else 'i'
-- 
2.43.0


From 261a8d6e18b0c70a772c6ee07033b70ccc3e1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:40 +0000
Subject: [PATCH 28/35] fix: reject a matrix of a wrong shape in project_matmul

---
 t3f/riemannian.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index a5228a6..3536aa2 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -415,6 +415,13 @@ def project_matmul(what, where, matrix):
                      (where.dtype,
                       what.dtype))
 
+  matrix_rows, matrix_columns = matrix.get_raw_shape()
+  if not (matrix_rows.is_compatible_with(where.get_raw_shape()[0]) and
+          matrix_columns.is_compatible_with(what.get_raw_shape()[0])):
+    raise ValueError('The shape of the matrix should be compatible with the '
+                     'shapes of the vectors, got %s, %s, and %s.' %
+                     (matrix, where, what))
+
   left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
     where)
   right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-- 
2.43.0


From b0a67994907e4e2b8745501e57a996e27cf5afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:53:04 +0000
Subject: [PATCH 29/35] fix: cast of something else than a TT-object raises
 ValueError

---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 94f1d3d..90ea932 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1245,6 +1245,9 @@ def cast(tt, dtype, name='t3f_cast'):
     TypeError: If `tt` cannot be cast to the `dtype`.
     ValueError: If `tt` is not a `TensorTrain` or `TensorTrainBatch`.
   """
+  if not isinstance(tt, (TensorTrain, TensorTrainBatch)):
+    raise ValueError('Unsupported type of input "%s", should be TensorTrain '
+                     'or TensorTrainBatch.' % tt)
   with tf.name_scope(name):
     res_cores = []
     cores = tt.tt_cores
@@ -1254,11 +1257,8 @@ def cast(tt, dtype, name='t3f_cast'):
     res_ranks = tt.get_tt_ranks()
     if isinstance(tt, TensorTrain):
       return TensorTrain(res_cores, res_shape, res_ranks)
-    elif isinstance(tt, TensorTrainBatch):
-      return TensorTrainBatch(res_cores, res_shape, res_ranks, tt.batch_size)
     else:
-      raise ValueError('Unsupported type of input "%s", should be TensorTrain '
-                       'or TensorTrainBatch.' % tt)
+      return TensorTrainBatch(res_cores, res_shape, res_ranks, tt.batch_size)
 
 
 def gather_nd(tt, indices, name='t3f_gather_nd'):
-- 
2.43.0


From 6b796ecf1232fdb11a0e31f77921d027c95d3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:20 +0000
Subject: [PATCH 30/35] fix: accept TT-objects whose shape or TT-ranks are
 partly unknown until run time

---
 t3f/tensor_train.py       | 18 ++++++++++++------
 t3f/tensor_train_base.py  |  9 +++------
 t3f/tensor_train_batch.py | 12 +++++++-----
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 9fb22e9..c03f620 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -91,7 +91,7 @@ class TensorTrain(TensorTrainBase):
     variable_str = ' variable' if self.is_variable() else ''
     if self.is_tt_matrix():
       raw_shape = self.get_raw_shape()
-      return "A TT-Matrix%s of size %d x %d, underlying tensor " \
+      return "A TT-Matrix%s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (variable_str, shape[0], shape[1],
                                                raw_shape[0], raw_shape[1],
                                                tt_ranks)
@@ -142,6 +142,11 @@ class TensorTrain(TensorTrainBase):
     return TensorTrain(new_tt_cores)
 
 
+def _dims_differ(dim_a, dim_b):
+  """True if both (static) sizes are known and are different."""
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
   """Check if dimensions of the TT-cores are consistent and the dtypes coincide.
 
@@ -175,22 +180,23 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         return False
       if shape is not None:
         for i in range(len(shape)):
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if _dims_differ(curr_core_shape[i + 1], shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if _dims_differ(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if _dims_differ(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if _dims_differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (_dims_differ(tt_cores[0].get_shape()[0], 1) or
+        _dims_differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index 2ed426c..799e84d 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -1,4 +1,3 @@
-from functools import reduce
 import numpy as np
 import tensorflow as tf
 
@@ -31,11 +30,9 @@ class TensorTrainBase(object):
     """
     raw_shape = self.get_raw_shape()
     if self.is_tt_matrix():
-      # Use python prod instead of np.prod to avoid overflows.
-      prod_f = lambda arr: reduce(lambda x, y: x*y, arr)
-      # TODO: as list is not available if shape is partly known.
-      m = prod_f(raw_shape[0].as_list())
-      n = prod_f(raw_shape[1].as_list())
+      # num_elements returns None if the shape is partly known.
+      m = raw_shape[0].num_elements()
+      n = raw_shape[1].num_elements()
       return tf.TensorShape((m, n))
     else:
       return raw_shape[0]
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 6502ff1..5be331d 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -3,6 +3,7 @@ import tensorflow as tf
 
 from t3f.tensor_train_base import TensorTrainBase
 from t3f.tensor_train import TensorTrain
+from t3f.tensor_train import _dims_differ
 from t3f import shapes
 
 
@@ -124,7 +125,7 @@ class TensorTrainBatch(TensorTrainBase):
       raw_shape = self.get_raw_shape()
       type_str = 'TT-matrix variables' if self.is_variable() else 'TT-matrices'
 
-      return "A %s element batch of %s of size %d x %d, underlying tensor " \
+      return "A %s element batch of %s of size %s x %s, underlying tensor " \
              "shape: %s x %s, TT-ranks: %s" % (batch_size_str, type_str,
                                                shape[1], shape[2],
                                                raw_shape[0], raw_shape[1],
@@ -322,17 +323,18 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
           if curr_core_shape[0] != prev_core_shape[0]:
             # The batch sizes of the TT-cores are different.
             return False
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if _dims_differ(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if _dims_differ(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if _dims_differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (_dims_differ(tt_cores[0].get_shape()[1], 1) or
+        _dims_differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From b5967bffb93638bd42df7ee121bff44d84cc8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:59:24 +0000
Subject: [PATCH 31/35] fix: add, multiply and matmul of TT-objects with
 TT-ranks unknown until run time

---
 t3f/ops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 90ea932..4000d84 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -187,7 +187,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   res_shape = (tt_matrix_a.get_raw_shape()[0], tt_matrix_b.get_raw_shape()[1])
   static_a_ranks = tt_matrix_a.get_tt_ranks()
   static_b_ranks = tt_matrix_b.get_tt_ranks()
-  out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
+  out_ranks = [None if a_r is None or b_r is None else a_r * b_r
+               for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   else:
@@ -767,7 +768,9 @@ def add(tt_a, tt_b, name='t3f_add'):
     static_a_ranks = tt_a.get_tt_ranks()
     static_b_ranks = tt_b.get_tt_ranks()
     for core_idx in range(1, ndims):
-      out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
+      a_rank, b_rank = static_a_ranks[core_idx], static_b_ranks[core_idx]
+      is_known = a_rank is not None and b_rank is not None
+      out_ranks.append(a_rank + b_rank if is_known else None)
     out_ranks.append(1)
     if is_batch_case:
       return TensorTrainBatch(tt_cores, tt_a.get_raw_shape(), out_ranks,
@@ -944,7 +947,8 @@ def multiply(tt_left, right, name='t3f_multiply'):
         tt_cores.append(curr_core)
 
       combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
-      out_ranks = [a * b for a, b in combined_ranks]
+      out_ranks = [None if a is None or b is None else a * b
+                   for a, b in combined_ranks]
 
   if not is_batch_case:
     return TensorTrain(tt_cores, tt_left.get_raw_shape(), out_ranks)
-- 
2.43.0


From f8030cfd9ae8ca44ff0dd6cb163396c0cb83c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:03:41 +0000
Subject: [PATCH 32/35] fix: a batch size known only at run time is stored as
 unknown

---
 t3f/tensor_train_batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 5be331d..b8ecab5 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -48,6 +48,9 @@ class TensorTrainBatch(TensorTrainBase):
           name = "core%d" % i
           tt_cores[i] = tf.convert_to_tensor(tt_cores[i], name=name)
 
+    if tf.is_tensor(batch_size):
+      # The batch size known only at run time is unknown statically.
+      batch_size = tf.get_static_value(batch_size)
     if not _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       raise ValueError('The tt_cores provided to TensorTrainBatch constructor '
                        'are not valid, have different dtypes, or are '
-- 
2.43.0


From d7775d48f603cb45050b4455fb321c404f779aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:30:27 +0000
Subject: [PATCH 33/35] fix: the NumPy replacement of tf.linalg.svd supports
 compute_uv=False

---
 t3f/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/utils.py b/t3f/utils.py
index 906664a..5af6d28 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -24,6 +24,8 @@ def replace_tf_svd_with_np_svd():
 
   def my_svd(tensor, full_matrices=False, compute_uv=True):
     dtype = tensor.dtype
+    if not compute_uv:
+      return tf.constant(np.linalg.svd(tensor, full_matrices, compute_uv))
     u, s, v = np.linalg.svd(tensor, full_matrices, compute_uv)
     # Converting numpy order of v dims to TF order.
     order = list(range(tensor.get_shape().ndims))
-- 
2.43.0


From 4f11a84c70049a0c3a41f3bc8e3cf725fcb9c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:43 +0000
Subject: [PATCH 34/35] fix: determinants of Kronecker products of more than
 2^31 rows

---
 t3f/kronecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index f0601aa..c53543e 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -43,7 +43,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -96,7 +96,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     logdet = 0.
     det_sign = 1.
 
-- 
2.43.0


From 3f648db1d7f585910681d1848a6fc1202b386dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:57 +0000
Subject: [PATCH 35/35] fix: right singular vectors of complex matrices in the
 NumPy replacement of tf.linalg.svd

---
 t3f/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index 5af6d28..ea9005a 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -30,7 +30,7 @@ def replace_tf_svd_with_np_svd():
     # Converting numpy order of v dims to TF order.
     order = list(range(tensor.get_shape().ndims))
     order[-2], order[-1] = order[-1], order[-2]
-    v = tf.transpose(v, order)
+    v = tf.transpose(v, order, conjugate=True)
     return tf.constant(s), tf.constant(u), v
 
   tf.linalg.svd = my_svd
-- 
2.43.0

