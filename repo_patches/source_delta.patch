From 49d5e04dd5158eb87e436810302b81434b00abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 01/32] fix: classification pairs leaked the score mask from
 one threshold into the next

---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 8bcd49c247e702fee5b84fec727d4191d8e2eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 02/32] fix: classification accuracy ignored the datum filter
 in its denominator

---
 src/valor_lite/classification/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..5bd410b 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,7 +593,7 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
+        n_datums = self.get_info(datums=datums).number_of_datums
         n_labels = self.info.number_of_labels
 
         # intermediates
-- 
2.43.0


From 5119a2a937c71cb4bdac42d2784ff4f292ac5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 03/32] fix: segmentation overlap resolution ignored masks that
 had themselves overlapped

---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From dea36b72eefca606ecc41e9dbbb459372fa88046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 04/32] fix: segmentation dropped the pixels of masks sharing a
 label within a datum

---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..6325443 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # a label may be used by more than one mask, so counts are accumulated
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix,
+        (0, prediction_labels + 1),
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix,
+        (groundtruth_labels + 1, 0),
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From 92729f4aadc48c07034c7e5790b5b9b544b44992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 05/32] fix: object detection counted no true-positives at an
 IOU threshold of zero

---
 src/valor_lite/object_detection/computation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..21ffeae 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -410,7 +410,10 @@ def compute_counts(
 
     for iou_idx in range(n_ious):
         mask_iou_curr = ious >= iou_thresholds[iou_idx]
-        mask_iou_prev = prev_ious < iou_thresholds[iou_idx]
+        # a lower boundary of zero marks the first candidate of a ground truth
+        mask_iou_prev = (prev_ious < iou_thresholds[iou_idx]) | (
+            prev_ious <= 0.0
+        )
         mask_iou = mask_iou_curr & mask_iou_prev
 
         mask_tp_outer = mask_tp & mask_iou
-- 
2.43.0


From 7049d2cc1cb4781ce2c7dbcc37e81729c44b571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 06/32] fix: finalizing an object detection loader twice
 duplicated its ranked predictions

---
 src/valor_lite/object_detection/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..ccf687f 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -183,6 +183,8 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._ranked_writer.count_rows() > 0:
+            raise RuntimeError("data already finalized")
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From 50229b729675e790e7cd868646e75c2f5230ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 07/32] fix: context recall divided by zero when a ground truth
 yields no statements

---
 src/valor_lite/text_generation/computation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..a7bffc6 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -310,6 +310,9 @@ def calculate_context_recall(
             context_list=predicted_context,
             groundtruth_statements=groundtruth_statements,
         )
+        if len(verdicts) == 0:
+            scores.append(0.0)
+            continue
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
-- 
2.43.0


From 6857e0ccae0f9d825cbc4139704eaa035d8429a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 08/32] fix: unhashable LLM verdicts raised TypeError instead
 of InvalidLLMResponseError

---
 src/valor_lite/text_generation/llm/validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..2e1311b 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,9 +59,9 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
-        elif (
-            allowed_values is not None
-            and value["verdict"] not in allowed_values
+        elif allowed_values is not None and (
+            not isinstance(value["verdict"], str)
+            or value["verdict"] not in allowed_values
         ):
             raise InvalidLLMResponseError(
                 f"LLM response contains verdicts from outside the allowed set {allowed_values}: {response}"
-- 
2.43.0


From 8abbf0661f032fc63394a9cccbc92c72d4a7e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 09/32] fix: ROCAUC lost the first segment of the curve when it
 was split from the origin

---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..b1a58c6 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if fps[0] > 0 or tps[0] > 0:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 592559a3372a8f4f8cd526e208a457f46bf37353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 10/32] fix: pagination treated a limit of zero as no limit

---
 src/valor_lite/cache/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..167e5d7 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -170,7 +170,7 @@ def paginate_index(
     Note this function expects unqiue keys to be fragment-aligned.
     """
     total = source.count_rows()
-    limit = limit if limit else total
+    limit = limit if limit is not None else total
 
     # pagination broader than data scope
     if offset == 0 and limit >= total:
-- 
2.43.0


From c8d413bf9c3254752e40d39cc6442b393d4f586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 11/32] fix: in-memory cache wrote tables ahead of buffered
 rows

---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From 917061bb970d47a66ce456bf4ad6a990ba265b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 12/32] fix: LLM responses that overflow the JSON parser were
 not treated as invalid

---
 src/valor_lite/text_generation/llm/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..5416c2f 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -30,9 +30,9 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
 
     try:
         return json.loads(extracted_text)
-    except json.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
         raise InvalidLLMResponseError(
-            f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
+            f"Evaluation LLM responded with invalid JSON. {type(e).__name__}: {str(e)}"
         )
 
 
-- 
2.43.0


From 6c445a9904e40c22bc209c365c6138a0e212d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 13/32] fix: average precision placed exact recall values one
 bin too low

---
 src/valor_lite/object_detection/computation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 21ffeae..e62b5d4 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -490,7 +490,8 @@ def compute_counts(
         where=running_gt_count > 0,
         out=recall,
     )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    # offset by epsilon as recall * 100.0 may round to just below its exact bin
+    recall_index = np.floor(recall * 100.0 + EPSILON).astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From c57c25f5f3edba7bd11cb8366b87a5b85bcd99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:44 +0000
Subject: [PATCH 14/32] fix: ROCAUC derived its negatives from unmatched counts
 and could exceed one

---
 src/valor_lite/classification/computation.py |  5 ++++-
 src/valor_lite/classification/evaluator.py   |  1 +
 src/valor_lite/classification/shared.py      | 12 +++++++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index b1a58c6..a1bc941 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -11,6 +11,7 @@ def compute_rocauc(
     array: NDArray[np.float64],
     gt_count_per_label: NDArray[np.uint64],
     pd_count_per_label: NDArray[np.uint64],
+    fp_count_per_label: NDArray[np.uint64],
     n_labels: int,
     prev: NDArray[np.uint64],
 ) -> tuple[NDArray[np.float64], NDArray[np.uint64]]:
@@ -30,6 +31,8 @@ def compute_rocauc(
         The number of ground truth occurences per label.
     pd_count_per_label : NDArray[np.uint64]
         The number of prediction occurences per label.
+    fp_count_per_label : NDArray[np.uint64]
+        The number of predictions per label that do not match their ground truth.
     n_labels : int
         The total number of unqiue labels.
     prev : NDArray[np.uint64]
@@ -49,7 +52,7 @@ def compute_rocauc(
     cumulative_tp = array[:, 2]
 
     positive_count = gt_count_per_label
-    negative_count = pd_count_per_label - gt_count_per_label
+    negative_count = fp_count_per_label
 
     for label_idx in range(n_labels):
         mask_pds = pd_labels == label_idx
diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index 5bd410b..d9baaca 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -554,6 +554,7 @@ class Evaluator:
                 array=array,
                 gt_count_per_label=label_counts[:, 0],
                 pd_count_per_label=label_counts[:, 1],
+                fp_count_per_label=label_counts[:, 2],
                 n_labels=self.info.number_of_labels,
                 prev=prev,
             )
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index fdc9b1e..34c84b2 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -150,7 +150,7 @@ def extract_groundtruth_count_per_label(
 ) -> NDArray[np.uint64]:
 
     # count ground truth and prediction label occurences
-    label_counts = np.zeros((number_of_labels, 2), dtype=np.uint64)
+    label_counts = np.zeros((number_of_labels, 3), dtype=np.uint64)
     for tbl in reader.iterate_tables(filter=datums):
 
         # count unique gt labels
@@ -181,4 +181,14 @@ def extract_groundtruth_count_per_label(
         )
         label_counts[unique_pd_labels, 1] += pd_label_counts.astype(np.uint64)
 
+        # count unique pd labels that do not match their ground truth
+        fp_tbl = pd_tbl.filter(~pc.field("match"))
+        fp_ids = np.column_stack(
+            [fp_tbl[col].to_numpy() for col in ["datum_id", "pd_label_id"]]
+        ).astype(np.int64)
+        unique_fp_labels, fp_label_counts = np.unique(
+            np.unique(fp_ids, axis=0)[:, 1], return_counts=True
+        )
+        label_counts[unique_fp_labels, 2] += fp_label_counts.astype(np.uint64)
+
     return label_counts
-- 
2.43.0


From 3a9fe728edc769b848ed2ed1a36a72023ce58b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:44 +0000
Subject: [PATCH 15/32] fix: oversized integers in LLM responses were not
 treated as invalid

---
 src/valor_lite/text_generation/llm/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 5416c2f..43e42ef 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -40,4 +40,8 @@ def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError:
+        # exceeds the integer string conversion limit
+        return None
-- 
2.43.0


From 49d4b36c5425ecebd0e0cae803b62b9057a48fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 16/32] fix: cache paths containing glob characters lost or
 deleted the wrong data files

---
 src/valor_lite/cache/persistent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..4d76f1f 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,8 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(f"{glob.escape(str(self._path))}/*.parquet")
         ]
 
 
-- 
2.43.0


From db03899d128ba66a0a50aee1831c588dc6ea588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 17/32] fix: sorting several cache files into an in-memory
 cache lost every row

---
 src/valor_lite/cache/compute.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 167e5d7..2b8da03 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -142,19 +142,16 @@ def sort(
                 table_sort_override=table_sort_override,
             )
     else:
-        intermediate_sink = MemoryCacheWriter.create(
-            schema=sink.schema,
-            batch_size=sink.batch_size,
-        )
-        _merge(
-            source=source,
-            sink=sink,
-            intermediate_sink=intermediate_sink,
-            batch_size=batch_size,
-            sorting=sorting,
-            columns=columns,
-            table_sort_override=table_sort_override,
-        )
+        # the sink lives in memory, so the fragments can be sorted as one table
+        tables = [
+            table_sort_override(tbl)
+            if table_sort_override is not None
+            else tbl
+            for tbl in source.iterate_tables(columns=columns)
+        ]
+        if tables:
+            sink.write_table(pa.concat_tables(tables).sort_by(sorting))
+        sink.flush()
 
 
 def paginate_index(
-- 
2.43.0


From 07ca0cf666b2c0ad6c5d85fe6e53dab52d6d81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:30 +0000
Subject: [PATCH 18/32] fix: a reloaded evaluator could not be filtered when a
 metadata type has no alias

---
 src/valor_lite/classification/evaluator.py    |  4 +++-
 src/valor_lite/classification/shared.py       | 22 ++++++++++++++++---
 src/valor_lite/object_detection/evaluator.py  |  4 +++-
 src/valor_lite/object_detection/shared.py     | 22 ++++++++++++++++---
 .../semantic_segmentation/evaluator.py        |  4 +++-
 .../semantic_segmentation/shared.py           | 21 +++++++++++++++---
 6 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index d9baaca..c44331e 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -392,7 +392,9 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_types)
+            metadata_fields = decode_metadata_fields(
+                encoded_types, reader.schema
+            )
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index 34c84b2..4737a1e 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -90,9 +90,25 @@ def encode_metadata_fields(
 
 
 def decode_metadata_fields(
-    encoded_metadata_fields: dict[str, str]
-) -> list[tuple[str, str]]:
-    return [(k, v) for k, v in encoded_metadata_fields.items()]
+    encoded_metadata_fields: dict[str, str],
+    schema: pa.Schema | None = None,
+) -> list[tuple[str, str | pa.DataType]]:
+    """
+    Decode metadata fields from JSON format.
+
+    Types that have no alias (e.g. timestamps with a time zone) cannot be recovered
+    from their encoding and are looked up within the schema.
+    """
+
+    def _decode(name: str, encoded_type: str) -> str | pa.DataType:
+        try:
+            pa.type_for_alias(encoded_type)
+        except ValueError:
+            if schema is not None:
+                return schema.field(name).type
+        return encoded_type
+
+    return [(k, _decode(k, v)) for k, v in encoded_metadata_fields.items()]
 
 
 def extract_labels(
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index ccf687f..84dc916 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -282,7 +282,9 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             encoded_metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(encoded_metadata_types)
+            metadata_fields = decode_metadata_fields(
+                encoded_metadata_types, detailed_reader.schema
+            )
 
         return cls(
             detailed_reader=detailed_reader,
diff --git a/src/valor_lite/object_detection/shared.py b/src/valor_lite/object_detection/shared.py
index 976a4ad..09f4b75 100644
--- a/src/valor_lite/object_detection/shared.py
+++ b/src/valor_lite/object_detection/shared.py
@@ -116,9 +116,25 @@ def encode_metadata_fields(
 
 
 def decode_metadata_fields(
-    encoded_metadata_fields: dict[str, str]
-) -> list[tuple[str, str]]:
-    return [(k, v) for k, v in encoded_metadata_fields.items()]
+    encoded_metadata_fields: dict[str, str],
+    schema: pa.Schema | None = None,
+) -> list[tuple[str, str | pa.DataType]]:
+    """
+    Decode metadata fields from JSON format.
+
+    Types that have no alias (e.g. timestamps with a time zone) cannot be recovered
+    from their encoding and are looked up within the schema.
+    """
+
+    def _decode(name: str, encoded_type: str) -> str | pa.DataType:
+        try:
+            pa.type_for_alias(encoded_type)
+        except ValueError:
+            if schema is not None:
+                return schema.field(name).type
+        return encoded_type
+
+    return [(k, _decode(k, v)) for k, v in encoded_metadata_fields.items()]
 
 
 def extract_labels(
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 9eb34d1..7a39f7c 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -227,7 +227,9 @@ class Evaluator:
         metadata_fields = None
         with open(metadata_path, "r") as f:
             metadata_types = json.load(f)
-            metadata_fields = decode_metadata_fields(metadata_types)
+            metadata_fields = decode_metadata_fields(
+                metadata_types, reader.schema
+            )
 
         return cls(
             reader=reader,
diff --git a/src/valor_lite/semantic_segmentation/shared.py b/src/valor_lite/semantic_segmentation/shared.py
index b1c9889..4313f23 100644
--- a/src/valor_lite/semantic_segmentation/shared.py
+++ b/src/valor_lite/semantic_segmentation/shared.py
@@ -73,10 +73,25 @@ def encode_metadata_fields(
 
 
 def decode_metadata_fields(
-    encoded_metadata_fields: dict[str, str]
+    encoded_metadata_fields: dict[str, str],
+    schema: pa.Schema | None = None,
 ) -> list[tuple[str, str | pa.DataType]]:
-    """Decode metadata fields from JSON format."""
-    return [(k, v) for k, v in encoded_metadata_fields.items()]
+    """
+    Decode metadata fields from JSON format.
+
+    Types that have no alias (e.g. timestamps with a time zone) cannot be recovered
+    from their encoding and are looked up within the schema.
+    """
+
+    def _decode(name: str, encoded_type: str) -> str | pa.DataType:
+        try:
+            pa.type_for_alias(encoded_type)
+        except ValueError:
+            if schema is not None:
+                return schema.field(name).type
+        return encoded_type
+
+    return [(k, _decode(k, v)) for k, v in encoded_metadata_fields.items()]
 
 
 def extract_labels(
-- 
2.43.0


From 54620ce2d5ccb1e3d231e0f2bacf52628f5e35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 19/32] fix: finalizing several detection files failed for
 metadata types that parquet widens

---
 src/valor_lite/cache/persistent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 4d76f1f..6fb8c84 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -272,7 +272,9 @@ class FileCacheReader(FileCache):
         Iterator[Iterator[pa.RecordBatch]]
         """
         for fragment in self.iterate_ordered_fragments():
-            yield fragment.to_batches(batch_size=batch_size)
+            yield fragment.to_batches(
+                schema=self._schema, batch_size=batch_size
+            )
 
 
 class FileCacheWriter(FileCache):
-- 
2.43.0


From e39f6e8f4722a2e8181a3d1276804a2677415a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:28 +0000
Subject: [PATCH 20/32] fix: resolving overlapping masks altered the caller's
 arrays, and failed on read-only ones

Masks that share an array with another mask (of the other side or another datum) lost pixels with it.
---
 src/valor_lite/semantic_segmentation/annotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b5cce6f..25b5dad 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -106,7 +106,7 @@ class Segmentation:
                 mask_overlap_accumulation = np.zeros_like(mask_accumulation)
             elif np.logical_and(mask_accumulation, bitmask.mask).any():
                 mask_overlap = np.logical_and(mask_accumulation, bitmask.mask)
-                bitmasks[idx].mask[mask_overlap] = False
+                bitmasks[idx].mask = bitmask.mask & ~mask_overlap
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
-- 
2.43.0


From 9aa4869e983a392bab3e7c4511f4106f6eba9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:35 +0000
Subject: [PATCH 21/32] fix: neighbouring labels matched each other beyond a
 hundred thousand labels

---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index a1bc941..b495e40 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -135,7 +135,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = ~np.isclose(scores, 0.0)
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -289,7 +289,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index e62b5d4..9d81490 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -742,7 +742,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From d9df7125a2a5d9c8c5a583df185cb9b8a8c06c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:00 +0000
Subject: [PATCH 22/32] fix: columns were stored under inferred types and in
 the caller's order

---
 src/valor_lite/cache/ephemeral.py  | 2 +-
 src/valor_lite/cache/persistent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..be996e4 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,7 +204,7 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 6fb8c84..0f34fc1 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -410,7 +410,7 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0


From 39f5b52aeba0ea626f21dfa1fb537ea0910d990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 23/32] fix: reading tables with arrays failed unless numeric
 columns were named

---
 src/valor_lite/cache/ephemeral.py  | 6 ++++--
 src/valor_lite/cache/persistent.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index be996e4..3fba831 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -108,12 +108,14 @@ class MemoryCacheReader(MemoryCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 0f34fc1..87e8709 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -246,12 +246,14 @@ class FileCacheReader(FileCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
-- 
2.43.0


From 446c0d1aecd2893c91eb6fb27d8d8bd7052d10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:05 +0000
Subject: [PATCH 24/32] fix: a refused datum left its labels behind in the
 loader

---
 src/valor_lite/classification/loader.py        | 6 ++++++
 src/valor_lite/object_detection/loader.py      | 6 ++++++
 src/valor_lite/semantic_segmentation/loader.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/valor_lite/classification/loader.py b/src/valor_lite/classification/loader.py
index 52a0380..b74336d 100644
--- a/src/valor_lite/classification/loader.py
+++ b/src/valor_lite/classification/loader.py
@@ -26,6 +26,7 @@ class Loader(Builder):
         # internal state
         self._labels: dict[str, int] = {}
         self._index_to_label: dict[int, str] = {}
+        self._label_count = 0
         self._datum_count = 0
 
     def _add_label(self, value: str) -> int:
@@ -59,6 +60,10 @@ class Loader(Builder):
                     "Classifications must contain at least one prediction."
                 )
 
+            # forget labels of a datum that could not be written
+            while len(self._labels) > self._label_count:
+                self._labels.popitem()
+
             # prepare metadata
             datum_metadata = (
                 classification.metadata if classification.metadata else {}
@@ -92,6 +97,7 @@ class Loader(Builder):
                     }
                 )
             self._writer.write_rows(rows)
+            self._label_count = len(self._labels)
 
             # update datum count
             self._datum_count += 1
diff --git a/src/valor_lite/object_detection/loader.py b/src/valor_lite/object_detection/loader.py
index 9a741b5..d1e05b9 100644
--- a/src/valor_lite/object_detection/loader.py
+++ b/src/valor_lite/object_detection/loader.py
@@ -34,6 +34,7 @@ class Loader(Builder):
 
         # internal state
         self._labels = {}
+        self._label_count = 0
         self._datum_count = 0
         self._groundtruth_count = 0
         self._prediction_count = 0
@@ -57,6 +58,10 @@ class Loader(Builder):
         for detection, ious in tqdm(
             zip(detections, detection_ious), disable=disable_tqdm
         ):
+            # forget labels of a datum that could not be written
+            while len(self._labels) > self._label_count:
+                self._labels.popitem()
+
             # cache labels and annotation pairs
             datum_idx = self._datum_count
             datum_metadata = detection.metadata if detection.metadata else {}
@@ -190,6 +195,7 @@ class Loader(Builder):
             self._prediction_count += len(detection.predictions)
 
             self._detailed_writer.write_rows(pairs)
+            self._label_count = len(self._labels)
 
     def add_bounding_boxes(
         self,
diff --git a/src/valor_lite/semantic_segmentation/loader.py b/src/valor_lite/semantic_segmentation/loader.py
index aa526c7..da488a3 100644
--- a/src/valor_lite/semantic_segmentation/loader.py
+++ b/src/valor_lite/semantic_segmentation/loader.py
@@ -22,6 +22,7 @@ class Loader(Builder):
         # internal state
         self._labels: dict[str, int] = {}
         self._index_to_label: dict[int, str] = {}
+        self._label_count = 0
         self._datum_count = 0
 
     def _add_label(self, value: str) -> int:
@@ -51,6 +52,10 @@ class Loader(Builder):
         disable_tqdm = not show_progress
         for segmentation in tqdm(segmentations, disable=disable_tqdm):
 
+            # forget labels of a datum that could not be written
+            while len(self._labels) > self._label_count:
+                self._labels.popitem()
+
             groundtruth_labels = -1 * np.ones(
                 len(segmentation.groundtruths), dtype=np.int64
             )
@@ -200,6 +205,7 @@ class Loader(Builder):
                 }
             )
             self._writer.write_rows(rows)
+            self._label_count = len(self._labels)
 
             # update datum count
             self._datum_count += 1
-- 
2.43.0


From 8cadc335a6d3075ddceeb66677b358590aa1560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:37 +0000
Subject: [PATCH 25/32] fix: a refused metadata field left part of a detection
 cache behind

---
 src/valor_lite/object_detection/evaluator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 84dc916..e144184 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -116,17 +116,21 @@ class Builder:
         """
         path = Path(path)
 
+        # validate both schemas before anything is created
+        detailed_schema = generate_detailed_schema(metadata_fields)
+        ranked_schema = generate_ranked_schema(metadata_fields)
+
         # create caches
         detailed_writer = FileCacheWriter.create(
             path=generate_detailed_cache_path(path),
-            schema=generate_detailed_schema(metadata_fields),
+            schema=detailed_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
         )
         ranked_writer = FileCacheWriter.create(
             path=generate_ranked_cache_path(path),
-            schema=generate_ranked_schema(metadata_fields),
+            schema=ranked_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
-- 
2.43.0


From 5b473185b19d7c72dee94db36f87741b58b42c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:34 +0000
Subject: [PATCH 26/32] fix: a refused filter left a half-built cache that
 occupied its path

---
 src/valor_lite/classification/evaluator.py    | 31 +++++++++++++++++++
 src/valor_lite/object_detection/evaluator.py  | 28 +++++++++++++++++
 .../semantic_segmentation/evaluator.py        | 27 ++++++++++++++++
 3 files changed, 86 insertions(+)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index c44331e..c6b2c1d 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -317,6 +317,20 @@ class Builder:
             metadata_fields=self._metadata_fields,
         )
 
+    def _discard(self):
+        """Remove everything that has been stored on disk."""
+        for writer in (
+            self._writer,
+            self._roc_curve_writer,
+            self._intermediate_writer,
+        ):
+            if isinstance(writer, FileCacheWriter):
+                writer.flush()
+                FileCacheWriter.delete(writer.path)
+                generate_metadata_path(writer.path.parent).unlink(
+                    missing_ok=True
+                )
+
 
 class Evaluator:
     def __init__(
@@ -449,6 +463,23 @@ class Evaluator:
                 metadata_fields=self.info.metadata_fields,
             )
 
+        # a filter that is refused does not occupy the path
+        try:
+            return self._filter_into(
+                loader, datums, groundtruths, predictions
+            )
+        except Exception:
+            loader._discard()
+            raise
+
+    def _filter_into(
+        self,
+        loader: Builder,
+        datums: pc.Expression | None,
+        groundtruths: pc.Expression | None,
+        predictions: pc.Expression | None,
+    ) -> Evaluator:
+        """Write the filtered cache into a new builder and finalize it."""
         for tbl in self._reader.iterate_tables(filter=datums):
             columns = (
                 "datum_id",
diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index e144184..a37445a 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -215,6 +215,16 @@ class Builder:
             metadata_fields=self._metadata_fields,
         )
 
+    def _discard(self):
+        """Remove everything that has been stored on disk."""
+        for writer in (self._detailed_writer, self._ranked_writer):
+            if isinstance(writer, FileCacheWriter):
+                writer.flush()
+                FileCacheWriter.delete(writer.path)
+                generate_metadata_path(writer.path.parent).unlink(
+                    missing_ok=True
+                )
+
 
 class Evaluator:
     def __init__(
@@ -346,6 +356,24 @@ class Evaluator:
                 metadata_fields=self._metadata_fields,
             )
 
+        # a filter that is refused does not occupy the path
+        try:
+            return self._filter_into(
+                loader, datums, groundtruths, predictions, batch_size
+            )
+        except Exception:
+            loader._discard()
+            raise
+
+    def _filter_into(
+        self,
+        loader: Builder,
+        datums: pc.Expression | None,
+        groundtruths: pc.Expression | None,
+        predictions: pc.Expression | None,
+        batch_size: int,
+    ) -> "Evaluator":
+        """Write the filtered cache into a new builder and finalize it."""
         for tbl in self._detailed_reader.iterate_tables(filter=datums):
             columns = (
                 "datum_id",
diff --git a/src/valor_lite/semantic_segmentation/evaluator.py b/src/valor_lite/semantic_segmentation/evaluator.py
index 7a39f7c..4ea4bdd 100644
--- a/src/valor_lite/semantic_segmentation/evaluator.py
+++ b/src/valor_lite/semantic_segmentation/evaluator.py
@@ -149,6 +149,16 @@ class Builder:
             metadata_fields=self._metadata_fields,
         )
 
+    def _discard(self):
+        """Remove everything that has been stored on disk."""
+        for writer in (self._writer,):
+            if isinstance(writer, FileCacheWriter):
+                writer.flush()
+                FileCacheWriter.delete(writer.path)
+                generate_metadata_path(writer.path.parent).unlink(
+                    missing_ok=True
+                )
+
 
 class Evaluator:
     def __init__(
@@ -281,6 +291,23 @@ class Evaluator:
                 metadata_fields=self.info.metadata_fields,
             )
 
+        # a filter that is refused does not occupy the path
+        try:
+            return self._filter_into(
+                builder, datums, groundtruths, predictions
+            )
+        except Exception:
+            builder._discard()
+            raise
+
+    def _filter_into(
+        self,
+        builder: Builder,
+        datums: pc.Expression | None,
+        groundtruths: pc.Expression | None,
+        predictions: pc.Expression | None,
+    ) -> Evaluator:
+        """Write the filtered cache into a new builder and finalize it."""
         for tbl in self._reader.iterate_tables(filter=datums):
             columns = (
                 "datum_id",
-- 
2.43.0


From 93e3474c3872133f719f229797fc3605e30b7b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 27/32] fix: mIOU of segmentations without any label is 0
 instead of NaN

---
 src/valor_lite/semantic_segmentation/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/semantic_segmentation/utilities.py b/src/valor_lite/semantic_segmentation/utilities.py
index b7616fc..168b0ed 100644
--- a/src/valor_lite/semantic_segmentation/utilities.py
+++ b/src/valor_lite/semantic_segmentation/utilities.py
@@ -55,7 +55,7 @@ def unpack_precision_recall_iou_into_metric_lists(
 
     metrics[MetricType.mIOU] = [
         Metric.mean_iou(
-            value=float(ious.diagonal().mean()),
+            value=float(ious.diagonal().mean()) if n_labels > 0 else 0.0,
         )
     ]
 
-- 
2.43.0


From 6ad591c377f8d1c353160577f10fd4617c067179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:41 +0000
Subject: [PATCH 28/32] fix: Mistral responses cut off by the model's context,
 or without text, are refused like other cut-off responses

---
 src/valor_lite/text_generation/llm/integrations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/integrations.py b/src/valor_lite/text_generation/llm/integrations.py
index 1461ae2..4637a6c 100644
--- a/src/valor_lite/text_generation/llm/integrations.py
+++ b/src/valor_lite/text_generation/llm/integrations.py
@@ -205,7 +205,6 @@ class MistralWrapper:
             mistral_response is None
             or mistral_response.choices is None
             or mistral_response.choices[0].message is None
-            or mistral_response.choices[0].message.content is None
         ):
             return ""
 
@@ -215,11 +214,14 @@ class MistralWrapper:
             0
         ].finish_reason  # Enum: "stop" "length" "model_length" "error" "tool_calls"
 
-        if finish_reason == "length":
+        if finish_reason in {"length", "model_length"}:
             raise ValueError(
                 "Mistral response reached max token limit. Resulting evaluation is likely invalid or of low quality."
             )
 
+        if response is None:
+            return ""
+
         if not isinstance(response, str):
             raise TypeError("Mistral AI response was not a string.")
 
-- 
2.43.0


From 6d0787e833b44c4b98db33f6ed082e0a22f0bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:59 +0000
Subject: [PATCH 29/32] fix: the IoU of boxes and polygons with a union below
 1e-9, e.g. small objects in degrees, is their area ratio instead of 0

---
 src/valor_lite/object_detection/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index 9d81490..f568d15 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -73,7 +73,7 @@ def compute_bbox_iou(data: NDArray[np.float64]) -> NDArray[np.float64]:
     np.divide(
         intersection_area,
         union_area,
-        where=union_area >= EPSILON,
+        where=union_area > 0,
         out=ious,
     )
     return ious
@@ -170,7 +170,7 @@ def compute_polygon_iou(
     np.divide(
         intersection_areas,
         union_areas,
-        where=union_areas >= EPSILON,
+        where=union_areas > 0,
         out=ious,
     )
     return ious
-- 
2.43.0


From 5c15e4f87d00f8b12cb0f2886970a4b2a139ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:48 +0000
Subject: [PATCH 30/32] fix: classification confusion matrices and examples no
 longer need memory quadratic in the predictions of a chunk

---
 src/valor_lite/classification/computation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index b495e40..4b9dfc4 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -282,7 +282,10 @@ def compute_pair_classifications(
 
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
-    groundtruths = ids[:, [0, 1]]
+    _, groundtruth_indices = np.unique(
+        ids[:, [0, 1]], axis=0, return_inverse=True
+    )
+    groundtruth_indices = groundtruth_indices.reshape(-1)
 
     pair_classifications = np.zeros(
         (n_scores, n_pairs),
@@ -300,14 +303,11 @@ def compute_pair_classifications(
 
         mask_true_positives = mask_label_match & mask_score
         mask_misclassifications = ~mask_label_match & mask_score
-        mask_unmatched_groundtruths = ~(
-            (
-                groundtruths.reshape(-1, 1, 2)
-                == groundtruths[mask_score].reshape(1, -1, 2)
-            )
-            .all(axis=2)
-            .any(axis=1)
-        )
+        mask_groundtruth_matched = np.zeros(n_pairs, dtype=np.bool_)
+        mask_groundtruth_matched[groundtruth_indices[mask_score]] = True
+        mask_unmatched_groundtruths = ~mask_groundtruth_matched[
+            groundtruth_indices
+        ]
 
         # classify pairings
         pair_classifications[score_idx, mask_true_positives] |= np.uint8(
-- 
2.43.0


From 0006a82e605931a3322bde7bfd86279bf8452825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:37 +0000
Subject: [PATCH 31/32] fix: bitmask overlaps are computed pair by pair instead
 of holding all pairs of masks of a datum in memory

---
 src/valor_lite/object_detection/loader.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/valor_lite/object_detection/loader.py b/src/valor_lite/object_detection/loader.py
index d1e05b9..c8c01db 100644
--- a/src/valor_lite/object_detection/loader.py
+++ b/src/valor_lite/object_detection/loader.py
@@ -280,14 +280,14 @@ class Loader(Builder):
             Toggle for tqdm progress bar.
         """
         ious = [
-            compute_bitmask_iou(
-                np.array(
-                    [
-                        [gt.mask, pd.mask]
-                        for pd in detection.predictions
-                        for gt in detection.groundtruths
-                    ]
-                )
+            # one pair at a time as all pairs of masks may not fit into memory
+            np.array(
+                [
+                    compute_bitmask_iou(np.array([[gt.mask, pd.mask]]))
+                    for pd in detection.predictions
+                    for gt in detection.groundtruths
+                ],
+                dtype=np.float64,
             ).reshape(len(detection.predictions), len(detection.groundtruths))
             for detection in detections
         ]
-- 
2.43.0


From 9b717b1d075985c6980a43bdc3154de5b05e4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:37 +0000
Subject: [PATCH 32/32] fix: segmentation overlaps are computed per ground
 truth instead of for all pairs of masks at once

---
 src/valor_lite/semantic_segmentation/computation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 6325443..5a10357 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -38,10 +38,14 @@ def compute_intermediates(
         groundtruths.any(axis=0) | predictions.any(axis=0)
     ).sum()
 
-    intersection_counts = np.logical_and(
-        groundtruths[:, None, :],
-        predictions[None, :, :],
-    ).sum(axis=2)
+    # one ground truth at a time as all pairs of masks may not fit into memory
+    intersection_counts = np.stack(
+        [
+            np.logical_and(groundtruth, predictions).sum(axis=1)
+            for groundtruth in groundtruths
+        ],
+        axis=0,
+    )
     intersected_groundtruth_counts = intersection_counts.sum(axis=1)
     intersected_prediction_counts = intersection_counts.sum(axis=0)
 
-- 
2.43.0

