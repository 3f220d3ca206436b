From 576ad4e9ae00481c7ad94c3cbb5165a381188510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 01/70] fix: svmlight loader misaligned rows preceded only by
 rows without features

reshape_data derived the number of rows already read from the number of
features seen so far, and was skipped when that was 0: leading rows without
features were not zero-filled once a later row introduced features.
---
 rankeval/dataset/_svmlight_format.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..7491809 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -207,9 +207,9 @@ static PyObject *to_dense(std::vector<float> &data,
  */
 void reshape_data(std::vector<float> &data,
                   int &old_num_feature,
-                  int new_num_feature)
+                  int new_num_feature,
+                  int rows_to_fix)
 {
-  int rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
   int cells_to_add = rows_to_fix * (new_num_feature - old_num_feature);
   int cells_to_add_per_row = cells_to_add / rows_to_fix;
 
@@ -305,8 +305,10 @@ void parse_line(const std::string &line,
 
   // if the maximum feature read is greater than the maximum feature read since here,
   // it means we have to reshape the dataset to include new columns...
-  if (max_feature > 0 && (next_feature - 1) > max_feature) {
-    reshape_data(data, max_feature, next_feature - 1);
+  // (the rows read before the current one could also have no feature at all)
+  int rows_to_fix = labels.size() - 1;
+  if (rows_to_fix > 0 && (next_feature - 1) > max_feature) {
+    reshape_data(data, max_feature, next_feature - 1, rows_to_fix);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From 4ceb2ab5d398e65b23f2274bbfbdcb565db2942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 02/70] fix: svmlight loader crashed on read errors and leaked
 every line

The result of PyFile_GetLine was used without checking for NULL (an error while
reading the stream) or for its type, and its reference was never released.
---
 rankeval/dataset/_svmlight_format.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 7491809..89cd48c 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -124,7 +124,15 @@ public:
   }
 };
 
-
+/*
+ * Thrown when the Python error indicator has already been set by the callee.
+ */
+class PythonError : public std::runtime_error {
+public:
+  PythonError() : std::runtime_error("Python exception already set")
+  {
+  }
+};
 
 /*
  * Convert a C++ vector to a 1d-ndarray WITHOUT memory copying.
@@ -327,7 +335,14 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
+    if (py_line == NULL)
+        throw PythonError();
+    if (!PyBytes_Check(py_line)) {
+        Py_DECREF(py_line);
+        throw std::invalid_argument("the file must be opened in binary mode");
+    }
     line = std::string(PyBytes_AS_STRING(py_line));
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
@@ -354,6 +369,8 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From 1cb1992c6ba40138bf2ec1a30901104954eae5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 03/70] fix: dumping a single-row dataset dropped its query id

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 89cd48c..f5a86a8 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -413,7 +413,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 9bb6de8c2b29bf974fe6c9ee1821f7b0455c92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 04/70] fix: dumping a Fortran-ordered matrix scrambled its
 values

The writer walks the buffer row by row, so the matrix must be C-contiguous.
---
 rankeval/dataset/svmlight_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..c0115e4 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,7 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From a4b89f47888fafe89e7acdcb18da902ced8f83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 05/70] fix: Dataset.split put training queries in the test set
 when none was left for it

A test share of 0 queries selected perm[-0:], i.e. every query, and a negative
one (both shares rounded up) selected a suffix overlapping the other parts.
---
 rankeval/dataset/dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..15756dc 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -198,7 +198,6 @@ class Dataset(object):
 
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
 
         qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
         for qid, start_offset, end_offset in self.query_iterator():
@@ -211,7 +210,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From 77d4ad69863fbb1395ef2551e58589376ee434ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 06/70] fix: get_query_offsets raised AttributeError instead of
 LookupError for a missing query

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 15756dc..177c392 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -315,8 +315,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 625d34aa1a2a812445f8c4ca7e72fcc8dd6ec4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 07/70] fix: Dataset equality and hash ignored query boundaries
 and array shapes

Datasets with the same rows but different query boundaries compared equal (and
so shared cached scores and ideal DCGs); comparing datasets of different shape
failed or broadcast; the hash failed on non-contiguous arrays and differed
between equal datasets of different type or zero sign.
---
 rankeval/dataset/dataset.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 177c392..444249b 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -408,17 +408,26 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
-                h.update(arr)
+            h.update(repr(self.X.shape).encode())
+            # equal datasets must have the same hash: it should not depend on
+            # the memory layout or the type of the arrays (adding 0 makes -0.0
+            # and 0.0 identical)
+            for arr, dtype in [(self.X, np.float32), (self.y, np.float32),
+                               (self.query_ids, np.int64),
+                               (self.query_offsets, np.int64)]:
+                arr = np.ascontiguousarray(arr, dtype=dtype)
+                h.update(arr + dtype(0))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
-        # use != instead of == because it is more efficient for sparse matrices:
-        x_eq = not(self.X != other.X).any()
-        return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+        if not isinstance(other, Dataset):
+            return NotImplemented
+        return np.array_equal(self.X, other.X) and \
+            np.array_equal(self.y, other.y) and \
+            np.array_equal(self.query_ids, other.query_ids) and \
+            np.array_equal(self.query_offsets, other.query_offsets)
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From 5d0bd959ac050a221998720e5b950becfe8baf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 08/70] fix: MSE used the query id as an index in the per-query
 scores

It failed, or put the scores in the wrong place, for any dataset whose query
ids are not 0..n_queries-1 in order.
---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..7f941ad 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From 20f74ee0d45013ebdad321d81e227d162d72f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 09/70] fix: RMSE of a query was the root of the sum, not of
 the mean, of squared errors

MSE.eval_per_query returns the sum (MSE.eval normalizes it by n_instances), so
RMSE grew with the square root of the query size.
---
 rankeval/metrics/rmse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/rmse.py b/rankeval/metrics/rmse.py
index ff596f0..3c0b325 100644
--- a/rankeval/metrics/rmse.py
+++ b/rankeval/metrics/rmse.py
@@ -77,7 +77,9 @@ class RMSE(Metric):
         rmse: float
             Represents the RMSE score for one query.
         """
-        mse = self._mse.eval_per_query(y, y_pred)
+        # MSE reports the sum of the squared errors at query level
+        n_docs = len(y) if self.cutoff is None else min(len(y), self.cutoff)
+        mse = self._mse.eval_per_query(y, y_pred) / n_docs
         return np.sqrt(mse)
 
     def __str__(self):
-- 
2.43.0


From e9917cafbf2c8100f098094a5fe1ee73d85bc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 10/70] fix: NDCG.eval_per_query used a stale ideal DCG after
 eval

The position in the per-dataset cache of ideal DCGs was kept after the end of
the evaluation, so that a following eval_per_query normalized by the ideal DCG
of another query (or failed with an IndexError).
---
 rankeval/metrics/ndcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..6febf70 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,12 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached values are valid only while evaluating this dataset
+            self._current_dataset = None
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 31a1bc24075931a9541e209c0453b6913c65cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 11/70] fix: MAP@k of a query with no relevant result above the
 cutoff was 1

no_relevant_results is for queries without relevant results; when there are
some but none is retrieved within the cutoff the average precision is 0.
---
 rankeval/metrics/map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..79f6528 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -107,6 +107,9 @@ class MAP(Metric):
 
         if n_relevant_retrieved_at_i > 0:
             return precision_at_i / min(n_retrieved, np.count_nonzero(y))
+        elif np.count_nonzero(y) > 0:
+            # there are relevant results, but none of them has been retrieved
+            return 0.0
         else:
             return self.no_relevant_results
 
-- 
2.43.0


From 5d68e7af064ef2ca9ebce32165fad271e9a8a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 12/70] fix: Kendalltau passed an argument that scipy
 deprecated and then removed

---
 rankeval/metrics/kendall_tau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..f14bc68 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -90,7 +90,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From f078c65efeeafc583379f893ffc20b4e68ae2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:23 +0000
Subject: [PATCH 13/70] fix: Pfound used the probability of abandonment as that
 of continuing

p_abandonment (default 0.15, as pBreak in the definition of pFound) is the
probability that the user stops looking at the list: a document at rank i is
looked at with probability (1 - p_abandonment)^(i-1), not p_abandonment^(i-1).
---
 rankeval/metrics/pfound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/pfound.py b/rankeval/metrics/pfound.py
index b7c4b4e..8843491 100644
--- a/rankeval/metrics/pfound.py
+++ b/rankeval/metrics/pfound.py
@@ -105,7 +105,7 @@ class Pfound(Metric):
 
         for i, idx in enumerate(idx_y_pred_sorted):
             utility = (pow(2., y[idx]) - 1.) / pow(2., max_grade)
-            pfound += prob_step_down * utility * pow(self.p_abandonment, i)
+            pfound += prob_step_down * utility * pow(1.0 - self.p_abandonment, i)
             prob_step_down *= (1. - utility)
 
         return pfound
-- 
2.43.0


From e74e16cc153f4245c892767ea405f0418ceefba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 14/70] fix: tree_wise_performance failed when a model has less
 trees than the step

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..a5f2bfb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From 727dae5fbe8c84ffc65b5f4798575f9a2e7470a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 15/70] fix: thresholds reported with cumulative distributions
 ignored the range

The coordinates of the bins were bin start + 1/bins, which is the end of the bin
only when the values span a range of 1 (e.g., never for document scores).
---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a5f2bfb..f4caef6 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -307,7 +307,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -473,7 +473,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From dbe31b2ba78f32ca6ff080b6d5486796a76d5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 16/70] fix: query_class_performance returned only NaN when
 given lists of classes

Lists are what the documentation asks for, but comparing a list with a class is
just False: no query was selected.
---
 rankeval/analysis/effectiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index f4caef6..c457fdf 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -373,7 +373,8 @@ def query_class_performance(datasets, models, metrics, query_classes,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 for idx_query_class, query_class in enumerate(unique_classes):
-                    indices = np.where(query_classes[idx_dataset] == query_class)
+                    indices = np.where(
+                        np.asarray(query_classes[idx_dataset]) == query_class)
                     # If this query class is not present in this dataset, skip it
                     if not len(indices):
                         continue
-- 
2.43.0


From 47e376b07ff6529e035e97ecf06119af1be457b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 17/70] fix: graded relevance and rank confusion failed on
 datasets of different size

---
 rankeval/analysis/effectiveness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index c457fdf..dd71138 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -451,7 +451,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets]))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -510,7 +510,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.unique(
+        np.concatenate([dataset.y for dataset in datasets]).astype(np.int32))
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From fdc626cb20caf8b8f26c12fc9f1fa6e7ca0e7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 18/70] fix: document_graded_relevance did not support
 bins=None as documented

---
 rankeval/analysis/effectiveness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index dd71138..85bebb2 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -448,6 +448,8 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
         start = min_doc_score
     if end is None:
         end = max_doc_score
+    if bins is None:
+        bins = np.max([dataset.n_queries for dataset in datasets])
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-- 
2.43.0


From 9240c0d2f4b8269f12def87757366c98ed7b130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:54 +0000
Subject: [PATCH 19/70] fix: rank_confusion_matrix used the label values as
 positions in the matrix

It failed or filled the wrong cells when the labels are not exactly 0..n-1.
---
 rankeval/analysis/effectiveness.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 85bebb2..1c61a99 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -519,6 +519,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                            len(rel_labels)), dtype=np.int32)
 
     for idx_dataset, dataset in enumerate(datasets):
+        # position of the label of each document in the confusion matrix
+        idx_labels = np.searchsorted(rel_labels, dataset.y.astype(np.int32))
         for idx_model, model in enumerate(models):
             y_pred = model.score(dataset, detailed=False, cache=cache)
             for query_id, start_offset, end_offset in dataset.query_iterator():
@@ -527,8 +529,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = idx_labels[i]
+                        y_j = idx_labels[j]
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 2464051d16907de442a42a97c07be665ed4a22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:54 +0000
Subject: [PATCH 20/70] fix: rank_confusion_matrix counted every document as a
 pair with itself

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 1c61a99..ff99ae1 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -525,7 +525,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
             y_pred = model.score(dataset, detailed=False, cache=cache)
             for query_id, start_offset, end_offset in dataset.query_iterator():
                 for i in np.arange(start_offset, end_offset):
-                    for j in np.arange(i, end_offset):
+                    for j in np.arange(i + 1, end_offset):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-- 
2.43.0


From d778570a7cb0ee811c2a2fe1384014b11c0ca2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:17 +0000
Subject: [PATCH 21/70] fix: feature importance ran out of bounds when no
 document goes left at a split

With the documents of the first node range all on the right the frontier is -1,
which was compared as an unsigned number: the right mean was not used and an
inner left child was visited with a range of 2^32 documents.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 rankeval/analysis/_efficient_feature_impl.h   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..20ea9f2 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -129,7 +129,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..4558f14 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,12 @@
 class TreeNode {
     public:
         unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        int start_id;
+        int end_id;
 
         TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From 497077ebc37e3e20fd811d0fd7b033cb476a77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:17 +0000
Subject: [PATCH 22/70] fix: feature importance accessed feature -1 for trees
 made of a single leaf

The C++ code wrote before the beginning of its output arrays, the Python code
credited the last feature.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 5 ++++-
 rankeval/analysis/feature.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 20ea9f2..f1cd771 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // trees with just a leaf do not have any split to evaluate
+    if (!is_leaf_node(root.node_id, trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..7508af5 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # trees with just a leaf do not have any split to evaluate
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From a55aa14b9f51278202bff2d3a965196c6696f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:17 +0000
Subject: [PATCH 23/70] fix: feature importance reinterpreted the raw bytes of
 non-float32 datasets

X and y were passed to C++ as C-contiguous single-precision buffers whatever
their type and layout (e.g., integer labels or Fortran-ordered features).
---
 rankeval/analysis/_efficient_feature.pyx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..9abfdbe 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -54,6 +54,11 @@ cdef extern from "_efficient_feature_impl.h":
 @cython.wraparound(False)
 def eff_feature_importance(model, dataset):
 
+    # the C++ code reads the raw buffers of the dataset: they should be
+    # single-precision and C-contiguous
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     # initialize features importance
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
@@ -61,8 +66,8 @@ def eff_feature_importance(model, dataset):
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -85,9 +90,14 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the C++ code reads the raw buffers of the dataset: they should be
+    # single-precision and C-contiguous
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From 9c29cc7921d8d9b6ed40911534a289326c96bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:17 +0000
Subject: [PATCH 24/70] fix: feature importance with RMSE took the root of the
 first feature only

---
 rankeval/analysis/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 7508af5..80b55a4 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -64,7 +64,8 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            # (numerical noise could make a null improvement negative)
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From b6acb15cfdf4a96d7714f22f17ddef817a174a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 25/70] fix: bias_variance always failed outside of a notebook

The progress bar was closed even if it does not exist, and np.bool has been
removed from numpy.
---
 rankeval/analysis/statistical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..bbc2811 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -235,8 +235,9 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
         
     return scores
 
-- 
2.43.0


From 53b7379d9c45e6245abe35b6d6fcc9c8fe663632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 26/70] fix: randomization test missed permutations as extreme
 as the observed one

The observed difference was rounded to single precision while the permuted ones
were not, so even the identity permutation could be judged less extreme: with
few queries or discrete metrics the p-value was heavily underestimated.
---
 rankeval/analysis/statistical.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index bbc2811..0f77409 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,11 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # the scores are single-precision: avoid rounding in the sums, otherwise
+    # permutations giving exactly the observed difference could be missed
+    metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
+    metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
@@ -146,6 +151,9 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
     a_sum = np.sum(best_metrics)
     b_sum = np.sum(worst_metrics)
 
+    # tolerance on the comparison with the observed difference
+    eps = 1e-12 * (np.abs(best_metrics).sum() + np.abs(worst_metrics).sum()) / N
+
     # repeat n_prem times
     for i in range(n_perm):
         if ipywidgets and i % (n_perm/10) == 0:
@@ -164,9 +172,9 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         # performance difference
         delta = a_mean - b_mean
 
-        if delta >= difference:
+        if delta >= difference - eps:
             p1 += 1.
-        if np.abs(delta) >= abs_difference:
+        if np.abs(delta) >= abs_difference - eps:
             p2 += 1.
 
     if ipywidgets:
-- 
2.43.0


From ae31c37c3e44904eb20e9c6e379f665a74dc38ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 27/70] fix: Scorer.get_predicted_leaves always raised
 AttributeError

---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From 4f4643cfbb2f316f0336b9e019442dd72db3646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 28/70] fix: a failed scoring poisoned the score cache of the
 model

The scorer was cached before scoring: when scoring raised (e.g., on a dataset
with double-precision features) the next call returned None as scores.
---
 rankeval/model/rt_ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a01cf27..2c3fa6f 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -336,8 +336,6 @@ class RTEnsemble(object):
                 detailed and self._cache_scorer[dataset].partial_y_pred is None:
 
             scorer = Scorer(self, dataset)
-            if cache:
-                self._cache_scorer[dataset] = scorer
             # The scoring is performed only if it has not been done before...
             scorer.score(detailed)
 
@@ -350,6 +348,10 @@ class RTEnsemble(object):
                 scorer.y_pred += self.base_score
                 if detailed:
                     scorer.partial_y_pred[:, :1] += self.base_score
+
+            # cache the results only once they are complete
+            if cache:
+                self._cache_scorer[dataset] = scorer
         else:
             scorer = self._cache_scorer[dataset]
 
-- 
2.43.0


From 3a2307ad9ce7792f20380022de5ec4e48e30e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 29/70] fix: XGBoost splits with a large threshold were loaded
 as <= instead of <

The threshold was decreased towards threshold - 1, which is the threshold itself
in single precision when its magnitude is at least 2^24: nothing changed.
---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..38a020c 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, -np.inf,
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From b55fc3ec79fc868c93e65da565cad4558dea6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 30/70] fix: CatBoost models with trees of different depth were
 loaded scrambled

All the trees were assumed to have the same number of nodes (and less than
2^16), so nodes of a tree were written over those of another one.
---
 rankeval/model/proxy_CatBoost.py | 50 +++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..4039c3a 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -62,19 +62,21 @@ class ProxyCatBoost(object):
 
         coreml_model = coremltools.models.model.MLModel(file_path)
 
-        n_trees, n_nodes = ProxyCatBoost._count_nodes(coreml_model)
+        n_nodes_trees = ProxyCatBoost._count_nodes_trees(coreml_model)
         # Initialize the model and allocate the needed space
         # given the shape and size of the ensemble
-        model.initialize(n_trees, n_nodes)
+        model.initialize(len(n_nodes_trees), int(n_nodes_trees.sum()))
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
+        # trees could have a different number of nodes
+        tree_offsets = np.cumsum(n_nodes_trees) - n_nodes_trees
 
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = n_nodes_trees[node.treeId]
+            tree_offset = tree_offsets[node.treeId]
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -130,6 +132,33 @@ class ProxyCatBoost(object):
         """
         raise NotImplementedError("Feature not implemented!")
 
+    @staticmethod
+    def _count_nodes_trees(coreml_model):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree of
+        the CoreML model.
+
+        Parameters
+        ----------
+        coreml_model : CoreML model
+            The CoreML model to load from
+
+        Returns
+        -------
+        n_nodes : numpy 1d array (n_trees)
+            The number of nodes of each tree
+        """
+        nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+
+        n_trees = np.max([node.treeId for node in nodes]) + 1
+
+        n_nodes_trees = np.zeros(n_trees, dtype=np.int64)
+        for node in nodes:
+            # node_Id starts from 0, thus + 1
+            n_nodes_trees[node.treeId] = max(n_nodes_trees[node.treeId],
+                                             node.nodeId + 1)
+        return n_nodes_trees
+
     @staticmethod
     def _count_nodes(coreml_model):
         """
@@ -148,15 +177,8 @@ class ProxyCatBoost(object):
             in the model identified by file_path.
         """
 
-        nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
-
-        n_trees = np.max([node.treeId for node in nodes]) + 1
-
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
-        for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
-
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+        n_nodes_trees = ProxyCatBoost._count_nodes_trees(coreml_model)
+        n_trees = len(n_nodes_trees)
+        n_nodes = int(n_nodes_trees.sum())
 
         return n_trees, n_nodes
\ No newline at end of file
-- 
2.43.0


From f8da2c85aa63142d56fd90921b99fb37b1ce1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 31/70] fix: exporting scikit-learn models failed with recent
 versions of scikit-learn

The initial estimator is a DummyRegressor, whose quantile attribute is None: the
initial prediction is in constant_.
---
 rankeval/model/proxy_ScikitLearn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..f15a44f 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,10 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if hasattr(model.init_, "constant_"):
+            # DummyRegressor, used by the recent versions of scikit-learn
+            base_score = model.init_.constant_.flatten()[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From df2d6f7f50700fe5c718b201b1321562a9f476cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 32/70] fix: exporting scikit-learn models rounded thresholds
 to 6 decimals

Thresholds, base score and learning rate were printed with %f: splits on features
with small values (or close to the threshold) changed side after loading.
---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index f15a44f..3d6625e 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -192,8 +192,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%.17g\n" % base_score)
+            writer.write("learning_rate=%.17g\n" % model.learning_rate)
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -214,7 +214,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From f6f212217bf6e91d25a69ffaa76355e6bc8e6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 33/70] fix: loading a Jforests model with a single-leaf tree
 failed

The lists of splits of such a tree are empty elements, without any text.
---
 rankeval/model/proxy_Jforests.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rankeval/model/proxy_Jforests.py b/rankeval/model/proxy_Jforests.py
index fc643ac..5dd74a5 100644
--- a/rankeval/model/proxy_Jforests.py
+++ b/rankeval/model/proxy_Jforests.py
@@ -72,13 +72,13 @@ class ProxyJforests(object):
             if event == 'end':
 
                 if elem.tag == 'SplitFeatures':
-                    split_features = map(int, elem.text.split(" "))
+                    split_features = map(int, (elem.text or "").split())
                     num_splits = 0
                     for pos, feature in enumerate(split_features):
                         num_splits += 1
                         model.trees_nodes_feature[root_node + pos] = feature
                 elif elem.tag == 'LeftChildren':
-                    left_children = map(int, elem.text.split(" "))
+                    left_children = map(int, (elem.text or "").split())
                     for pos, child in enumerate(left_children):
                         if child >= 0:
                             model.trees_left_child[root_node + pos] = \
@@ -87,7 +87,7 @@ class ProxyJforests(object):
                             model.trees_left_child[root_node + pos] = \
                                 root_node + num_splits + abs(child) - 1
                 elif elem.tag == 'RightChildren':
-                    right_children = map(int, elem.text.split(" "))
+                    right_children = map(int, (elem.text or "").split())
                     for pos, child in enumerate(right_children):
                         if child >= 0:
                             model.trees_right_child[root_node + pos] = \
@@ -96,11 +96,11 @@ class ProxyJforests(object):
                             model.trees_right_child[root_node + pos] = \
                                 root_node + num_splits + abs(child) - 1
                 elif elem.tag == 'OriginalThresholds':
-                    thresholds = map(float, elem.text.split(" "))
+                    thresholds = map(float, (elem.text or "").split())
                     for pos, threshold in enumerate(thresholds):
                         model.trees_nodes_value[root_node + pos] = threshold
                 elif elem.tag == 'LeafOutputs':
-                    leaf_values = map(float, elem.text.split(" "))
+                    leaf_values = map(float, (elem.text or "").split())
                     num_leaves = 0
                     for pos, leaf_value in enumerate(leaf_values):
                         num_leaves += 1
@@ -164,7 +164,7 @@ class ProxyJforests(object):
             if elem.tag == 'Tree':
                 n_trees += 1
             elif elem.tag == 'SplitFeatures' or elem.tag == 'LeafOutputs':
-                n_nodes += len(elem.text.split(" "))
+                n_nodes += len((elem.text or "").split())
 
             elem.clear()    # discard the element
             root.clear()    # remove root reference to the child
-- 
2.43.0


From 04ef2c2bb91002d7db9d57766bd7d4994ec7f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 34/70] fix: export_graphviz failed whenever max_depth cropped
 the tree

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..4f789f4 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -360,7 +360,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             if highlight_leaves or output_leaves is not None:
                 # color cropped nodes grey
                 out_file.write(', fillcolor="#C0C0C0"')
-            out_file.write('] ;\n' % node_id)
+            out_file.write('] ;\n')
 
             if parent_id is not None:
                 # Add edge to parent
-- 
2.43.0


From ec050e2fb14c3d3694406438423a1394c0fdc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 35/70] fix: export_graphviz refused the full list of names and
 accepted one too short

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4f789f4..02c3557 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -393,7 +393,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
         # n_features_ in the decision_tree
         if feature_names is not None:
             max_feature_id = np.max(ensemble.trees_nodes_feature) + 1
-            if len(feature_names) > max_feature_id:
+            if len(feature_names) < max_feature_id:
                 raise ValueError("Length of feature_names, %d "
                                  "does not match number of features, %d"
                                  % (len(feature_names),
-- 
2.43.0


From b30d30301c9298981e1efca5c17c4c0588883061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 36/70] fix: plot_feature_importance failed with less features
 than max_features

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..67c5381 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From d192ff929b3abb05b385c800611d66edca1d15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:56 +0000
Subject: [PATCH 37/70] fix: plot_rank_confusion_matrix swapped the names of
 its axes

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..9045b8b 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -422,8 +422,8 @@ def plot_rank_confusion_matrix(performance):
             axes[i, 0].pcolormesh(matrix)
             axes[i, 0].set_title(performance.name + " for " + dataset.name +
                                 " and model " + model.name)
-            axes[i, 0].set_ylabel("Label j")
-            axes[i, 0].set_xlabel("Label i")
+            axes[i, 0].set_ylabel("Label i")
+            axes[i, 0].set_xlabel("Label j")
             # axes[i,0].legend(["Label "+str(int(l)) for l in
             # performance.coords['label'].values])
 
-- 
2.43.0


From 80f69e77cc8e089a5214950d4af84f96c2c65ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:56 +0000
Subject: [PATCH 38/70] fix: plot_rank_confusion_matrix failed with a single
 relevance label

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 9045b8b..9689bfc 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -388,7 +388,7 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    if len(flat) > 1 and flat[-1] > 2 * flat[-2]:
         return True
     else:
         return False
-- 
2.43.0


From a564e10ca669c64b2dd1a456932426a681af27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:56 +0000
Subject: [PATCH 39/70] fix: init_plot_style failed with recent versions of
 matplotlib

---
 rankeval/visualization/effectiveness.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 9689bfc..2e11850 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -18,7 +18,11 @@ def init_plot_style():
     -------
 
     """
-    plt.style.use("seaborn-notebook")
+    # the seaborn styles have been renamed in matplotlib 3.6
+    if "seaborn-notebook" in plt.style.available:
+        plt.style.use("seaborn-notebook")
+    else:
+        plt.style.use("seaborn-v0_8-notebook")
     sns.set_palette("deep")
 
 
-- 
2.43.0


From f8268443c6eb6c6a8b4d8c02c7f330a55ff7eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 40/70] fix: a failed download was taken for a dataset already
 available on disk

---
 rankeval/dataset/datasets_fetcher.py | 53 +++++++++++++++++-----------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..05bafe8 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -50,6 +50,33 @@ def __get_data_home__(data_home=None):
     return data_home
 
 
+def __download_and_extract__(url, archive_name, destination):
+    """
+    Download an archive and extract it in the destination folder. The folder is
+    put in place only when it is complete, thus a failed (or interrupted)
+    download is never taken for a dataset already available on disk.
+    """
+    partial = destination + ".partial"
+    if os.path.exists(partial):
+        shutil.rmtree(partial)
+    os.makedirs(partial)
+
+    try:
+        archive_path = os.path.join(partial, archive_name)
+        opener = urlopen(url)
+        with open(archive_path, 'wb') as f:
+            f.write(opener.read())
+
+        print ("Decompressing %s" % archive_path)
+        with tarfile.open(archive_path, "r:gz") as archive:
+            archive.extractall(path=partial)
+        os.remove(archive_path)
+        os.rename(partial, destination)
+    except BaseException:
+        shutil.rmtree(partial, ignore_errors=True)
+        raise
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -94,8 +121,8 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             os.makedirs(data_home)
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
+    archive_name = dataset_dictionary['DATASET_ARCHIVE_NAME']
+    models_archive_name = dataset_dictionary['MODELS_ARCHIVE_NAME']
 
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
@@ -118,19 +145,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download_and_extract__(data_url, archive_name, dataset_home)
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -155,18 +174,10 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download_and_extract__(models_url, models_archive_name,
+                                     models_home)
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From b075af5b4a3045724d23a5dd6f99389be2eeae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 41/70] fix: download_if_missing=False still downloaded the
 missing data

---
 rankeval/dataset/datasets_fetcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 05bafe8..8cf4b60 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -108,7 +108,9 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
+    if not download_if_missing and (
+            not os.path.exists(dataset_home) or
+            (with_models and not os.path.exists(models_home))):
         raise IOError('dataset not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
-- 
2.43.0


From b26b7f153db1bd415104ec57434bbeef9bae6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 42/70] fix: the catalogue claimed a validation file named None
 for istella-full

---
 rankeval/dataset/write_json_dataset_catalogue.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rankeval/dataset/write_json_dataset_catalogue.py b/rankeval/dataset/write_json_dataset_catalogue.py
index 3920662..08ae0ba 100644
--- a/rankeval/dataset/write_json_dataset_catalogue.py
+++ b/rankeval/dataset/write_json_dataset_catalogue.py
@@ -17,7 +17,6 @@ output_file = "dataset_dictionary.json"
 def __add_istella_full__(data):
     item = {'TRAIN_FILE': 'full/train.txt',
             'TEST_FILE': 'full/test.txt',
-            'VALIDATION_FILE': 'None',
             'LICENSE_FILE': 'istella-letor-LA.txt',
             'DATASET_ARCHIVE_NAME': 'istella-letor.tar.gz',
             'MODELS_ARCHIVE_NAME': 'istella-letor-models.tar.gz',
-- 
2.43.0


From 6e9b0fa42afd2ee08e8f3ab821a625e3601743d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 43/70] fix: svmlight loader ignored what follows the number in
 a token

---
 rankeval/dataset/_svmlight_format.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index f5a86a8..8003a87 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -270,6 +270,7 @@ void parse_line(const std::string &line,
   labels.push_back(y);
 
   int idx;
+  int read;
   double x;
   int next_feature = 1;
   bool reuse_line = false;
@@ -281,7 +282,9 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  // the whole token has to match: what follows the number is not ignored
+  if (sscanf(token.c_str(), "qid:%u%n", &idx, &read) != 1 ||
+      (size_t) read != token.length()) {
     reuse_line = true;
   } else {
     qids.push_back(idx);
@@ -292,7 +295,8 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    if(sscanf(token.c_str(), "%u:%lf%n", &idx, &x, &read) == 2 &&
+       (size_t) read == token.length()) {
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From c945a6f9328312480f43934bd96a5da6771739c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 44/70] fix: svmlight loader accepted a label glued to the next
 token

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 8003a87..fe7b104 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -264,7 +264,7 @@ void parse_line(const std::string &line,
   in.exceptions(std::ios::badbit);
 
   float y;
-  if (!(in >> y)) {
+  if (!(in >> y) || (in.peek() != EOF && !isspace(in.peek()))) {
   	throw std::invalid_argument( "non-numeric or missing label, lineno " + std::to_string(lineno) );
   }
   labels.push_back(y);
-- 
2.43.0


From c7057080dbbf4b4ed0da99689df38e6681810620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:59 +0000
Subject: [PATCH 45/70] fix: query_wise_performance lost its thresholds with
 undefined metric values

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index ff99ae1..3ff1499 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -278,8 +278,8 @@ def query_wise_performance(datasets, models, metrics, bins=None,
             for idx_metric, metric in enumerate(metrics):
                 _, metric_scores = metric.eval(dataset, y_pred)
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
-                min_metric_score = np.nanmin([min_metric_score, metric_scores.min()])
-                max_metric_score = np.nanmax([max_metric_score, metric_scores.max()])
+                min_metric_score = np.nanmin([min_metric_score, np.nanmin(metric_scores)])
+                max_metric_score = np.nanmax([max_metric_score, np.nanmax(metric_scores)])
 
     if start is None:
         start = min_metric_score
-- 
2.43.0


From 61fa7e41c1563fffd6f81b0534d48920b0a86cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:59 +0000
Subject: [PATCH 46/70] fix: query_class_performance was undefined if it was
 for a single query

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 3ff1499..e6f5e4e 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -380,7 +380,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
                         continue
 
                     query_class_metric_scores[idx_dataset][idx_model][idx_metric][idx_query_class] = \
-                        glob_metric_scores[idx_dataset][idx_model][idx_metric][indices].mean()
+                        np.nanmean(glob_metric_scores[idx_dataset][idx_model][idx_metric][indices])
 
     performance = xr.DataArray(query_class_metric_scores,
                                name='Query Class Performance',
-- 
2.43.0


From 025159963e17df963055c119b96ebf6f5930f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:18 +0000
Subject: [PATCH 47/70] fix: randomization test reported p-values of 0 with
 undefined metric values

---
 rankeval/analysis/statistical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 0f77409..1105827 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -131,6 +131,13 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
     metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
     metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
 
+    # queries for which the metric is undefined cannot be compared
+    defined = ~(np.isnan(metric_scores_a) | np.isnan(metric_scores_b))
+    metric_scores_a = metric_scores_a[defined]
+    metric_scores_b = metric_scores_b[defined]
+    if not defined.any():
+        return np.nan, np.nan
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 159d65fbf0047297c2ef19f28cf3e98a8a413543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 48/70] fix: plots of model and query class performance failed
 with undefined values

---
 rankeval/visualization/effectiveness.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 2e11850..673d883 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -107,8 +107,10 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-        axes.set_ylim([0, y_max])
+        # (the metric could be undefined)
+        if not np.isnan(performance.values).all():
+            y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+            axes.set_ylim([0, y_max])
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -499,8 +501,10 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                # (the metric could be undefined, or a class without queries)
+                if not np.isnan(performance.values).all():
+                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+                    axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -535,8 +539,10 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                # (the metric could be undefined, or a class without queries)
+                if not np.isnan(performance.values).all():
+                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+                    axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From feaf20fd3c73516bf2fc6650bce9b066180d8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 49/70] fix: plot_tree_wise_performance failed with a metric
 undefined everywhere

---
 rankeval/visualization/effectiveness.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 673d883..6dce21d 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -155,9 +155,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[i, 0].plot(k_values, metric_values.values, label=metric)
-                    max_k = np.nanargmax(metric_values)
-                    axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle="none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 
                 axes[i, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[i, 0].set_ylabel(model)
@@ -181,9 +182,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=model)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle = "none", label=None)
 
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
@@ -207,9 +209,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=dataset.name)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle = "none", label=None)
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-- 
2.43.0


From 6c4d64c86cf7691ea6a09767f334dc1e1013b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 50/70] fix: plot_feature_importance failed when no feature has
 a positive importance

---
 rankeval/visualization/feature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 67c5381..48b0d15 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -101,7 +101,9 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     ax1.set_xlim(-bar_width/2 - bar_width, max_features - 1 + bar_width*5/2)
 
     step_y = np.ceil(top_importances.max() * 10) / 100
-    align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
+    # no feature with a positive importance, no step
+    if step_y > 0:
+        align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
 
     ax1.set_ylabel("Importance Gain")
     ax2.set_ylabel("Usage Count")
-- 
2.43.0


From 7fae25530f8a1149f5596d893bd385ea1e5f0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:50 +0000
Subject: [PATCH 51/70] fix: feature importance was undefined, once normalized,
 if no split improves the metric

---
 rankeval/analysis/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 80b55a4..4acadee 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -81,7 +81,8 @@ def feature_importance(model, dataset, metric=None, normalize=True):
             _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
                                      feature_imp, feature_count)
 
-    if normalize:
+    # (nothing to rescale if no split improves the metric)
+    if normalize and feature_imp.max() != 0:
         feature_imp = feature_imp / feature_imp.max()
 
     performance = xr.DataArray([feature_imp, feature_count],
-- 
2.43.0


From 5388f84df9649ad45828aea981ea0767c63df52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:05 +0000
Subject: [PATCH 52/70] fix: draw each tree shape on a figure of its own

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 02c3557..279e552 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -56,7 +56,7 @@ def plot_shape(topological, max_level=10):
     )
 
     # figure
-    fig = plt.figure(1, figsize=(12, 6))
+    fig = plt.figure(figsize=(12, 6))
 
     tr = Affine2D().translate(np.pi, 0) + PolarAxes.PolarTransform()
     x_ticks = [x+2. for x in range(max_levels-1)]
-- 
2.43.0


From e272ba7d0cfdc480f28dfb7ede3669075d48a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:05 +0000
Subject: [PATCH 53/70] fix: draw the levels of the tree shape between their
 own circles

---
 rankeval/visualization/topological.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 279e552..d7a1738 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -105,7 +105,8 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    # (theta and r are the corners of the cells)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From f7742a46cd45c92e5a3eaf3a5a47f1888c84d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:05 +0000
Subject: [PATCH 54/70] fix: plot the usage counts of features used by more
 than 65535 splits

---
 rankeval/visualization/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 48b0d15..b3af71d 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -44,7 +44,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     """
 
     feature_importance = feature_perf.sel(type='importance').data
-    feature_count = feature_perf.sel(type='count').data.astype(np.uint16)
+    feature_count = feature_perf.sel(type='count').data.astype(np.uint32)
 
     # figure
     fig, ax1 = plt.subplots(figsize=(16, 5))
-- 
2.43.0


From 045328d00ac2fc42a3288d036a5aba8b338910d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:13 +0000
Subject: [PATCH 55/70] fix: do not cut the bars of negative metric values off
 the plot

---
 rankeval/visualization/effectiveness.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6dce21d..3b49204 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -109,8 +109,9 @@ def plot_model_performance(performance, compare="models", show_values=False):
         
         # (the metric could be undefined)
         if not np.isnan(performance.values).all():
-            y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-            axes.set_ylim([0, y_max])
+            y_min = np.floor(min(0., np.nanmin(performance.values))*1.4*10.)/10.
+            y_max = np.ceil(max(0., np.nanmax(performance.values))*1.4*10.)/10.
+            axes.set_ylim([y_min, y_max])
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -506,8 +507,9 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 # (the metric could be undefined, or a class without queries)
                 if not np.isnan(performance.values).all():
-                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                    axes[i, 0].set_ylim([0, y_max])
+                    y_min = np.floor(min(0., np.nanmin(performance.values))*1.4*10.)/10.
+                    y_max = np.ceil(max(0., np.nanmax(performance.values))*1.4*10.)/10.
+                    axes[i, 0].set_ylim([y_min, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -544,8 +546,9 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 # (the metric could be undefined, or a class without queries)
                 if not np.isnan(performance.values).all():
-                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                    axes[i, 0].set_ylim([0, y_max])
+                    y_min = np.floor(min(0., np.nanmin(performance.values))*1.4*10.)/10.
+                    y_max = np.ceil(max(0., np.nanmax(performance.values))*1.4*10.)/10.
+                    axes[i, 0].set_ylim([y_min, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From 282e9535dc7c8408cb06b399bdaf1701e1526b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:24 +0000
Subject: [PATCH 56/70] fix: the SVMlight loader ignored what follows a null
 character

---
 rankeval/dataset/_svmlight_format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index fe7b104..bdaac5a 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -345,7 +345,8 @@ void parse_file(PyObject *pystream,
         Py_DECREF(py_line);
         throw std::invalid_argument("the file must be opened in binary mode");
     }
-    line = std::string(PyBytes_AS_STRING(py_line));
+    // (the size is given as the line could contain null characters)
+    line.assign(PyBytes_AS_STRING(py_line), PyBytes_GET_SIZE(py_line));
     Py_DECREF(py_line);
     if (line.empty())
         break;
-- 
2.43.0


From d8135a4b19d9102c72bd9b0456d3e3fcd0912070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:03 +0000
Subject: [PATCH 57/70] fix: feature ids above 32767 were misread

---
 rankeval/analysis/_efficient_feature.pyx      | 8 ++++----
 rankeval/analysis/_efficient_feature_impl.cpp | 6 +++---
 rankeval/analysis/_efficient_feature_impl.h   | 4 ++--
 rankeval/model/rt_ensemble.py                 | 2 +-
 rankeval/scoring/_efficient_scoring.pyx       | 9 ++++-----
 5 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 9abfdbe..a819e83 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -23,7 +23,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -38,7 +38,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -70,7 +70,7 @@ def eff_feature_importance(model, dataset):
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
@@ -100,7 +100,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index f1cd771..3119cca 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -9,7 +9,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes__feature,
+        const int* trees_nodes__feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -53,7 +53,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -98,7 +98,7 @@ void c_feature_importance_tree(
         queue.pop_back();
 
         int node_id = node.node_id;
-        short feature_id = trees_nodes_feature[node_id];
+        int feature_id = trees_nodes_feature[node_id];
         float threshold = trees_nodes_value[node_id];
 
         feature_count[feature_id]++;
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 4558f14..797dd3d 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -21,7 +21,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -36,7 +36,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index 2c3fa6f..4209da0 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -167,7 +167,7 @@ class RTEnsemble(object):
         self.trees_nodes_value = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.float32)
         self.trees_nodes_feature = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
 
     def is_leaf_node(self, index):
         """
diff --git a/rankeval/scoring/_efficient_scoring.pyx b/rankeval/scoring/_efficient_scoring.pyx
index 4b44d5c..40c81e8 100644
--- a/rankeval/scoring/_efficient_scoring.pyx
+++ b/rankeval/scoring/_efficient_scoring.pyx
@@ -38,7 +38,7 @@ def basic_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -80,7 +80,7 @@ def detailed_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -115,14 +115,13 @@ cdef int _score_single_instance_single_tree(float[:,:] X,
                                             np.intp_t idx_tree,
                                             int[:] trees_root,
                                             float[:] trees_weight,
-                                            short[:] trees_nodes_feature,
+                                            int[:] trees_nodes_feature,
                                             float[:] trees_nodes_value,
                                             int[:] trees_left_child,
                                             int[:] trees_right_child) nogil:
 
-    # Check the usage of np.intp_t in plave of np.int16_t
     cdef int cur_node = trees_root[idx_tree]
-    cdef short feature_idx
+    cdef int feature_idx
     cdef float feature_threshold
     while trees_left_child[cur_node] != -1 and trees_right_child[cur_node] != -1:
         feature_idx = trees_nodes_feature[cur_node]
-- 
2.43.0


From cdf258dbc2b89d5a166e17aec1ded420de08b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 58/70] fix: feature importance wrapped the counts and the
 feature ids above 65535

---
 rankeval/analysis/_efficient_feature.pyx      | 16 ++++++++++------
 rankeval/analysis/_efficient_feature_impl.cpp |  4 ++--
 rankeval/analysis/_efficient_feature_impl.h   |  4 ++--
 rankeval/analysis/feature.py                  |  4 ++--
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index a819e83..16b6a80 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -28,7 +28,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -44,7 +44,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
@@ -63,7 +63,7 @@ def eff_feature_importance(model, dataset):
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
     # initialize features importance
-    feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+    feature_count = np.zeros(dataset.n_features, dtype=np.uint32)
 
     c_feature_importance(
         <float*> np.PyArray_DATA(X),
@@ -75,13 +75,13 @@ def eff_feature_importance(model, dataset):
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <unsigned int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         model.n_trees);
 
     return np.asarray(feature_imp, dtype=np.float32), \
-           np.asarray(feature_count, dtype=np.uint16)
+           np.asarray(feature_count, dtype=np.uint32)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -89,6 +89,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
                              feature_imp, feature_count):
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
+    tree_count = np.zeros(dataset.n_features, dtype=np.uint32)
 
     # the C++ code reads the raw buffers of the dataset: they should be
     # single-precision and C-contiguous
@@ -106,10 +107,13 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <int*> np.PyArray_DATA(model.trees_right_child),
         tree_id,
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <unsigned int*> np.PyArray_DATA(tree_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         <float*> np.PyArray_DATA(y_pred),
         <float*> np.PyArray_DATA(y_pred_tree));
 
+    # (the array to update could be of any integer type)
+    feature_count += tree_count.astype(feature_count.dtype)
+
     return np.asarray(y_pred_tree, dtype=np.float32)
\ No newline at end of file
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 3119cca..609b2bf 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -14,7 +14,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         int n_instances,
         int n_features,
         int n_trees) {
@@ -59,7 +59,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 797dd3d..60a281c 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -26,7 +26,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -42,7 +42,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 4acadee..9dfdee7 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -71,7 +71,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
         # initialize features count
-        feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+        feature_count = np.zeros(dataset.n_features, dtype=np.uint32)
 
         # default scores on the root node of the first tree
         y_pred = np.zeros(dataset.n_instances)
@@ -88,7 +88,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     performance = xr.DataArray([feature_imp, feature_count],
                                name='Feature Importance Analysis',
                                coords=[['importance', 'count'],
-                                       np.arange(dataset.n_features, dtype=np.uint16)],
+                                       np.arange(dataset.n_features, dtype=np.uint32)],
                                dims=['type', 'feature'])
 
     return performance
-- 
2.43.0


From 321e3ba585ce454949a35d77be284eb7bd3b8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:32 +0000
Subject: [PATCH 59/70] fix: svmlight loader took an unfinished exponent for a
 number

---
 rankeval/dataset/_svmlight_format.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index bdaac5a..f791115 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -28,6 +28,7 @@
 #include <Python.h>
 #include <numpy/arrayobject.h>
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <stdexcept>
@@ -295,8 +296,14 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf%n", &idx, &x, &read) == 2 &&
-       (size_t) read == token.length()) {
+    // (sscanf would take an unfinished exponent, as in 1:2e, for a number)
+    char *end = 0;
+    read = 0;
+    if(sscanf(token.c_str(), "%u:%n", &idx, &read) == 1 && read > 0)
+        x = strtod(token.c_str() + read, &end);
+
+    if(end != 0 && end != token.c_str() + read &&
+       end == token.c_str() + token.length()) {
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From c98cd66a3b68347155682cc09258a56ea01fbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 60/70] fix: round the thresholds of scikit-learn models down
 to single precision

The thresholds of a scikit-learn tree are double precision numbers, compared
with single precision features. Rounding to the nearest number a threshold
between two neighbouring values could make it equal to the greater one, sending
its instances to the other child.
---
 rankeval/model/proxy_ScikitLearn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 3d6625e..829ad9a 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -89,6 +89,14 @@ class ProxyScikitLearn(object):
                     feature_id = int(match_node.group(2).strip())
                     threshold = float(match_node.group(3).strip())
 
+                    # The features are in single precision while the threshold
+                    # is in double precision: it is rounded down, otherwise a
+                    # value slightly greater could become equal to it
+                    rounded = np.float32(threshold)
+                    if float(rounded) > threshold:
+                        rounded = np.nextafter(rounded, np.float32(-np.inf))
+                    threshold = rounded
+
                     model.trees_nodes_feature[node_id] = feature_id
                     model.trees_nodes_value[node_id] = threshold
 
-- 
2.43.0


From c479a0a0e22e5570d102f5811ce1a432e4723fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 61/70] fix: Dataset.split accepted a negative validation size

The queries were then given to both the training and the test set.
---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 444249b..79d466d 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -193,7 +193,8 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-- 
2.43.0


From 594cc15b402db9e7e2d9c5b2d46662824f02999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 62/70] fix: ids that do not fit in an integer were silently
 loaded as other ids

---
 rankeval/dataset/_svmlight_format.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index f791115..c6845e0 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -28,6 +28,7 @@
 #include <Python.h>
 #include <numpy/arrayobject.h>
 
+#include <climits>
 #include <cstdlib>
 #include <fstream>
 #include <sstream>
@@ -243,6 +244,19 @@ void reshape_data(std::vector<float> &data,
 }
 
 
+/*
+ * Query and feature ids are stored as integers: throw an exception instead of
+ * silently turning an id that does not fit into a different one.
+ */
+static int checked_id(long long id, int lineno)
+{
+  if (id < INT_MIN || id > INT_MAX)
+    throw std::invalid_argument("query or feature id out of range, lineno " +
+                                std::to_string(lineno));
+  return (int) id;
+}
+
+
 /*
  * Parse single line. Throws exception on failure.
  */
@@ -270,7 +284,8 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx;
+  int idx = 0;
+  long long id;
   int read;
   double x;
   int next_feature = 1;
@@ -284,11 +299,11 @@ void parse_line(const std::string &line,
 
 
   // the whole token has to match: what follows the number is not ignored
-  if (sscanf(token.c_str(), "qid:%u%n", &idx, &read) != 1 ||
+  if (sscanf(token.c_str(), "qid:%lld%n", &id, &read) != 1 ||
       (size_t) read != token.length()) {
     reuse_line = true;
   } else {
-    qids.push_back(idx);
+    qids.push_back(checked_id(id, lineno));
   }
 
   while (true) {
@@ -299,12 +314,14 @@ void parse_line(const std::string &line,
     // (sscanf would take an unfinished exponent, as in 1:2e, for a number)
     char *end = 0;
     read = 0;
-    if(sscanf(token.c_str(), "%u:%n", &idx, &read) == 1 && read > 0)
+    if(sscanf(token.c_str(), "%lld:%n", &id, &read) == 1 && read > 0)
         x = strtod(token.c_str() + read, &end);
 
     if(end != 0 && end != token.c_str() + read &&
        end == token.c_str() + token.length()) {
 
+        idx = checked_id(id, lineno);
+
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
           data.push_back(0);
-- 
2.43.0


From db56031ecb554a64fe72df1a09bb91e94f3e9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:11 +0000
Subject: [PATCH 63/70] fix: Dataset.split, subset and subset_features mixed up
 queries whose ids differ by a multiple of 2**32

---
 rankeval/dataset/dataset.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 79d466d..e167bb8 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -200,7 +200,7 @@ class Dataset(object):
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
 
-        qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
+        qid_map = np.ndarray(self.n_instances, dtype=self.query_ids.dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             for idx in np.arange(start_offset, end_offset):
                 qid_map[idx] = qid
@@ -280,17 +280,25 @@ class Dataset(object):
         """
         return np.ediff1d(self.query_offsets)
 
-    def get_qids_dataset(self, dtype=np.int32):
+    def get_qids_dataset(self, dtype=None):
         """
         This method returns the query ids array in linear representation, i.e.,
         with the qid of each instance. Useful for creating a new dataset
         starting from a different one.
 
+        Parameters
+        ----------
+        dtype : numpy dtype
+            The type of the resulting array. If None, the type of the query
+            ids of the dataset is used.
+
         Returns
         -------
         query_ids : numpy 1d array
             It is a ndarray of shape (n_instances,)
         """
+        if dtype is None:
+            dtype = self.query_ids.dtype
         query_ids = np.empty(shape=self.n_instances, dtype=dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             query_ids[start_offset:end_offset] = qid
-- 
2.43.0


From 9c37d66cb99ce39c33f7126e2b8008521c169bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 64/70] fix: dumping a data set silently replaced query ids
 that do not fit in 32 bits

---
 rankeval/dataset/dataset.py         | 2 +-
 rankeval/dataset/svmlight_format.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index e167bb8..39e44c8 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -154,7 +154,7 @@ class Dataset(object):
         # we need to unroll the query_ids and query_offsets.
         # They are represented compact: they report only the query ids and the
         # offsets where each query starts and ends.
-        query_ids = np.ndarray(self.n_instances, dtype=np.int32)
+        query_ids = np.ndarray(self.n_instances, dtype=self.query_ids.dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             for idx in np.arange(start_offset, end_offset):
                 query_ids[idx] = qid
diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index c0115e4..6c0666a 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -194,7 +194,12 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
     else:
-        query_id = np.array(query_id, dtype=np.int32)
+        query_id = np.array(query_id, dtype=np.int64)
+        if query_id.size and (query_id.min() < np.iinfo(np.int32).min or
+                              query_id.max() > np.iinfo(np.int32).max):
+            raise ValueError("query ids out of range: they do not fit in 32 "
+                             "bits")
+        query_id = query_id.astype(np.int32)
 
     if hasattr(f, "write"):
         _dump_svmlight_file(f, X, y, query_id, int(zero_based))
-- 
2.43.0


From 4dd4f021e7c6b332383a4820439a1f980dcd4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 65/70] fix: feature ids that are negative or not increasing in
 a line were silently loaded as other features

---
 rankeval/dataset/_svmlight_format.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index c6845e0..20e252b 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -284,7 +284,7 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx = 0;
+  int idx = -1;
   long long id;
   int read;
   double x;
@@ -320,7 +320,13 @@ void parse_line(const std::string &line,
     if(end != 0 && end != token.c_str() + read &&
        end == token.c_str() + token.length()) {
 
+        // values are stored by position: an id that does not come after the
+        // previous one of the line (or a negative one) has no place to go to
+        int previous = idx;
         idx = checked_id(id, lineno);
+        if (idx <= previous)
+          throw std::invalid_argument("feature ids not increasing, lineno " +
+                                      std::to_string(lineno));
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From b062a216af342b9bdfc795b56deed285376267ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 66/70] fix: XGBoost splits on named features, indicators and
 categories were silently dropped

---
 rankeval/model/proxy_XGBoost.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index 38a020c..40be712 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -43,6 +43,7 @@ from .rt_ensemble import RTEnsemble
 tree_reg = re.compile("^booster\[(\d+)\]")
 node_reg = re.compile("(\d+):\[f(\d+)<(.*)\]")
 leaf_reg = re.compile("(\d+):leaf=(.+?)(,.*)?$")
+other_reg = re.compile(r"\s*\d+:")
 
 
 class ProxyXGBoost(object):
@@ -105,6 +106,13 @@ class ProxyXGBoost(object):
                     leaf_value = float(match_leaf.group(2).strip())
                     model.trees_nodes_value[node_id] = leaf_value
 
+                # splits on named features, indicators or categories: ignoring
+                # them would load a different tree
+                if not match_node and not match_leaf and other_reg.match(line):
+                    raise AssertionError("Decision Tree not supported. RankEval "
+                                         "supports only splits of the form "
+                                         "[f<feature id><<threshold>].")
+
                 if match_node or match_leaf:
                     num_nodes += 1
                     if len(queue) > 0:
-- 
2.43.0


From 35f3da73daa43f4a2976144f1a3a20f7e5ff2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 67/70] fix: LightGBM linear trees and averaged ensembles were
 loaded as plain ones

---
 rankeval/model/proxy_LightGBM.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index db8cbb1..01a9779 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -47,6 +47,8 @@ leaf_parent_reg = re.compile("^leaf_parent=(.*)")
 leaf_value_reg = re.compile("^leaf_value=(.*)")
 shrinkage_reg = re.compile("^shrinkage=(.*)")
 has_categorical_reg = re.compile("^has_categorical=(.*)")
+is_linear_reg = re.compile("^is_linear=(.*)")
+average_output_reg = re.compile("^average_output")
 
 
 class ProxyLightGBM(object):
@@ -164,6 +166,19 @@ class ProxyLightGBM(object):
                         raise AssertionError("Decision Tree not supported")
                     continue
 
+                match = is_linear_reg.match(line)
+                if match:
+                    if bool(int(match.group(1))):
+                        raise AssertionError("Decision Tree not supported. "
+                                             "RankEval does not support "
+                                             "linear trees.")
+                    continue
+
+                # the scores of the trees (random forest) are to be averaged
+                if average_output_reg.match(line):
+                    raise AssertionError("Ensemble not supported. RankEval "
+                                         "does not support random forests.")
+
 
     @staticmethod
     def save(file_path, model):
-- 
2.43.0


From 231c33ca1efac04f8c5a71937a4d7efa9955c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 68/70] fix: a hyper-parameter of a user-given initial
 estimator was exported as base score

---
 rankeval/model/proxy_ScikitLearn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 829ad9a..5efe6be 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -189,6 +189,9 @@ class ProxyScikitLearn(object):
         if hasattr(model.init_, "constant_"):
             # DummyRegressor, used by the recent versions of scikit-learn
             base_score = model.init_.constant_.flatten()[0]
+        elif hasattr(model.init_, "get_params"):
+            # an estimator given by the user, that predicts different scores
+            raise TypeError("Base score unknown!")
         elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
-- 
2.43.0


From 0656904d42e7f42e899a990c35314ac15969f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 69/70] fix: the legend of graded relevance plots truncated
 fractional labels

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 3b49204..445a92f 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -367,7 +367,7 @@ def plot_document_graded_relevance(performance):
                                  " and model " + model.name)
             axes[i, 0].set_ylabel("Relevance")
         axes[i, 0].set_xlabel("Predicted score")
-        axes[i, 0].legend(["Label "+str(int(l)) for l in
+        axes[i, 0].legend(["Label %g" % l for l in
                            performance.coords['label'].values])
 
         fig_list.append(fig)
-- 
2.43.0


From 166a98c8a6f36dd03ba912edc2e11cf09cd7e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:02 +0000
Subject: [PATCH 70/70] fix: members of a downloaded archive could be written
 outside of its folder

---
 rankeval/dataset/datasets_fetcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 8cf4b60..2b6dc90 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -69,6 +69,8 @@ def __download_and_extract__(url, archive_name, destination):
 
         print ("Decompressing %s" % archive_path)
         with tarfile.open(archive_path, "r:gz") as archive:
+            # refuse (when supported) the members placed outside of the folder
+            archive.extraction_filter = getattr(tarfile, 'data_filter', None)
             archive.extractall(path=partial)
         os.remove(archive_path)
         os.rename(partial, destination)
-- 
2.43.0

