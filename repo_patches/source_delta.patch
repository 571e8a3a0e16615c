From 7cd8aac749cd3f911d2a352e89ecbf16e3f8f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/28] fix: binary thinning stops only when a whole iteration
 changes nothing

The loop ended as soon as either sub-iteration removed no pixel, so an
image whose remaining removable pixels belong to the other sub-iteration
was returned only partly thinned.
---
 pyEdgeEval/preprocess/thin/thin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..946ecbf 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -262,20 +262,20 @@ def binary_thin(x, max_iter=None):
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = thin1_mut[lut_indices].any()
 
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
+        changed = thin2_mut[lut_indices].any() or changed
 
         x = thin2[lut_indices]
 
+        # stop once a whole iteration (both sub-iterations) changes nothing
+        if not changed:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From 63d8ab431aeb43264295c5497706d589f3fb8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 02/28] fix: binary thinning returns a bool mask even when no
 iteration runs

---
 pyEdgeEval/preprocess/thin/thin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index 946ecbf..04ce795 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -252,6 +252,9 @@ def binary_thin(x, max_iter=None):
     Returns:
         bool mask
     """
+    # the documented result is a bool mask, also when nothing is removed
+    x = x != 0
+
     thin1 = _thin_iter_1_lut()
     thin2 = _thin_iter_2_lut()
     thin1_mut = _lut_mutate_mask(thin1)
-- 
2.43.0


From 3d71582d1e9fbaa4713ffad6789d18356822a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 03/28] fix: 32-bit edge encoding accepts 8-bit edges with more
 than 8 classes

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..ea83fb5 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -21,7 +21,8 @@ def default_multilabel_encoding(edges: np.ndarray):
 
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        # 2**trainId only fits the 32-bit type of the encoded map
+        edge_map = edges[trainId].astype(np.uint32)
         cat_edge_map = cat_edge_map + (2**trainId) * edge_map
 
     return cat_edge_map
-- 
2.43.0


From 0498af3dedfb0fc651ddb163c779dfb4d83fceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 04/28] fix: one-hot to multi-label map accepts 8-bit edges
 with more than 8 labels

---
 pyEdgeEval/utils/convert_formats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..5025faf 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -35,7 +35,8 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
 
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
-        m = edges[l]
+        # 2**l only fits the 32-bit type of the encoded map
+        m = edges[l].astype(np.uint32)
         edge_map = edge_map + (2**l) * m
 
     return edge_map
-- 
2.43.0


From 01951981386e169bd02769ce94d5caa70f4f40c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 05/28] fix: one-hot conversion accepts masks with fewer rows
 than labels

---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 5025faf..e425b82 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 9bb035d33198b85e4fedaa86394ab6df7b1e7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 06/28] fix: check_thresholds accepts the documented NumPy
 array

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..85e6318 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array of specific thresholds
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From e12ba719747c151c82adcfc8302f12221d362032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/28] fix: bwmorph_thin no longer uses np.in1d, which NumPy
 removed

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..d160d55 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
-- 
2.43.0


From 52d3466237bbdb1da6ccf6f7aa15640a3be0b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/28] fix: scipy boundary of a mask that fills or misses the
 image is empty

scipy's distance transform is arbitrary when the input has no zero, which
gave spurious edge pixels in a corner where the cv2 path gives none.
---
 pyEdgeEval/utils/distance_transforms.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..22f3dd3 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -21,9 +21,19 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
     return dist
 
 
+def _scipy_edt(mask):
+    """Distance to the nearest zero; infinitely far when there is none
+
+    (scipy's result is arbitrary when the input has no zero)
+    """
+    if np.all(mask):
+        return np.full(mask.shape, np.inf)
+    return distance_transform_edt(mask)
+
+
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = _scipy_edt((m + ignore_mask) > 0)
+    outer = _scipy_edt(1.0 - m)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +54,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = _scipy_edt((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
-- 
2.43.0


From 6f73f96c3f8020f883b2f6a7629237bcddd382a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 09/28] fix: SBD kill_internal uses the segmentation of the
 evaluated category

The SBD segmentation files hold labelIds (0 is background, category c is
label c), so comparing with the 0-based channel index selected the
previous category.
---
 pyEdgeEval/datasets/sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..4a76b9f 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -62,7 +62,8 @@ def _evaluate_single(
 
         # need to be careful where the category starts
         # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        # (the SBD segmentation files hold labelIds: background is 0)
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From dcae903f3104f2ea199b7f88c3619bea005d2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 10/28] fix: mp_instance_mask2edge parses instance ids of
 labels below 10

---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..b51e72b 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,10 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        # two digits of label and three of instance (labels below 10 are padded)
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From add726b0dfe6eee5b08ae276b884503ee8894873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 11/28] fix: evaluate_reanno_sbd no longer passes an argument
 evaluate_reanno lacks

The re-annotated protocol fixes max_dist, and every call ended in a
TypeError.
---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..0226179 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -367,7 +367,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 540e1cec8916f07566848aab4974faa4b5c9908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 12/28] fix: SBD evaluation honours the prediction suffix
 option

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 0226179..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 8540da5dbb503cf0714f6d5b1e078ec2e7c3d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 13/28] fix: saving cityscapes edges as .bin no longer raises
 TypeError

---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From 36b0a59a006f17431ff96a38d52461cfcac936cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 14/28] fix: AP samples all 101 recall levels it averages over

The 101-point average left out recall 1.0, so a perfect detector scored
100/101.
---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..27ea430 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..5d2ad2a 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, num=101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From 0e1790ad1feb1d28714fbf4f7d7ac7c78ac810be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 15/28] fix: PR-curve plots read the nine overall values the
 library writes

---
 pyEdgeEval/common/binary_label/visualize.py | 8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..960383c 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -61,11 +61,11 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
 
@@ -83,7 +83,7 @@ def plot_pr_curve(
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..c49c1f2 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -102,11 +102,11 @@ def plot_pr_curve(
 
     # load results for every algorithm (pr=[T, R, P, F])
     n = len(algs)
-    hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
+    hs, res, prs = [None] * n, np.zeros((n, 10), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
-        res[i, 8] = _calc_r50(pr)
+        res[i, :9] = _load_overall_results(alg.overall_results)
+        res[i, 9] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
 
@@ -124,7 +124,7 @@ def plot_pr_curve(
             color=colors[i],
         )[0]
         prefix = "ODS={:.3f}, OIS={:.3f}, AP={:.3f}, R50={:.3f}".format(
-            *res[i, [3, 6, 7, 8]]
+            *res[i, [3, 6, 8, 9]]
         )
         prefix += " - {}".format(names[i])
         print(prefix)  # should remove
-- 
2.43.0


From d7a00af290a5b95a71f319ff3fef70fdc52787e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 16/28] fix: threshold results with a single threshold load as
 one row

---
 pyEdgeEval/visualization/pr_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index c49c1f2..5ab7171 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -53,7 +53,7 @@ def _isometric_contour_line_template(
 
 def _load_threshold_data(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
-    pr = np.loadtxt(data_path)
+    pr = np.loadtxt(data_path, ndmin=2)
     pr = pr[pr[:, 1] >= 1e-3]
     return pr
 
-- 
2.43.0


From 2d41f29add7ddd94a276f97f2548255efd3577ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 17/28] fix: NMS of a one-pixel-wide or one-pixel-high image
 stays inside the image

The bilinear lookup read a second row or column that does not exist, which
crashed the interpreter.
---
 pyEdgeEval/_lib/src/benms.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 68326e1..0532e75 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -12,10 +12,13 @@
 inline double interp(const Matrix& I, int h, int w, double x, double y)
 {
   // return I[x,y] via bilinear interpolation
-  x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);
-  y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);
+  // (a single row or column has no second neighbour: stay at coordinate 0)
+  x = x > w - 1.001 ? w - 1.001 : x;
+  y = y > h - 1.001 ? h - 1.001 : y;
+  x = x < 0 ? 0 : x;
+  y = y < 0 ? 0 : y;
   int x0 = int(x), y0 = int(y);
-  int x1 = x0 + 1, y1 = y0 + 1;
+  int x1 = x0 + 1 < w ? x0 + 1 : x0, y1 = y0 + 1 < h ? y0 + 1 : y0;
   double dx0 = x - x0, dy0 = y - y0;
   double dx1 = 1 - dx0, dy1 = 1 - dy0;
   double out = I(y0, x0) * dx1 * dy1 +
-- 
2.43.0


From 3ed793fe3ef51f6d9669c87af3708c0acceaf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 18/28] fix: RGB edge encoding accepts signed 8-bit edges

---
 pyEdgeEval/common/multi_label/edge_encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index ea83fb5..55f7a35 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -46,7 +46,8 @@ def rgb_multilabel_encoding(edges: np.ndarray):
     cat_edge_png = np.zeros((h, w, 3), dtype=np.uint8)
 
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        # 2**7 does not fit signed 8-bit edges
+        edge_map = edges[trainId].astype(np.uint8)
         if trainId >= 0 and trainId < 8:
             cat_edge_b = cat_edge_b + (2**trainId) * edge_map
         elif trainId >= 8 and trainId < 16:
-- 
2.43.0


From 91ff453d8a7489dd269c5d012cb91192779bd04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 19/28] fix: mask_label2trainId accepts the one-channel masks
 it lets through

---
 pyEdgeEval/utils/convert_formats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index e425b82..765e4a2 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -53,6 +53,7 @@ def mask_label2trainId(mask: np.ndarray, label2trainId: dict) -> np.ndarray:
     elif len(mask.shape) == 3:
         h, w, c = mask.shape
         assert c == 1, f"ERR: input label has {c} channels which should be 1"
+        mask = mask[:, :, 0]
     else:
         raise ValueError()
 
-- 
2.43.0


From 4667f9daac2bcc2750f6d2443695d5ea7a01bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 20/28] fix: on-the-fly edges parse instance ids of labels
 below 10

---
 pyEdgeEval/datasets/otf_cityscapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/datasets/otf_cityscapes.py b/pyEdgeEval/datasets/otf_cityscapes.py
index e770e98..b4e0395 100644
--- a/pyEdgeEval/datasets/otf_cityscapes.py
+++ b/pyEdgeEval/datasets/otf_cityscapes.py
@@ -78,8 +78,10 @@ def one_label_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        # two digits of label and three of instance (labels below 10 are padded)
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From dacb96c654bb7683aad175cc87ea3a513aac1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 21/28] fix: kill_internal accepts 0/1 integer segment masks

---
 pyEdgeEval/common/multi_label/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/common/multi_label/options.py b/pyEdgeEval/common/multi_label/options.py
index dc05897..1d968a6 100644
--- a/pyEdgeEval/common/multi_label/options.py
+++ b/pyEdgeEval/common/multi_label/options.py
@@ -20,6 +20,7 @@ def kill_internal_prediction(
 
     # buggy output when input is only 0s or 1s
     distmap = distance_transform_edt(1 - gt)
-    killmask = np.invert((distmap > buffer) * seg)
+    # `invert` is a logical not only for bool (0/1 integer masks are inverted bitwise)
+    killmask = np.invert((distmap > buffer) * (seg != 0))
     assert killmask.shape == pred.shape
     return pred * killmask
-- 
2.43.0


From b96f4a0c53a126430feb2bbc92e3c9c06b127eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 22/28] fix: accept sparse arrays when reading SBD ground truth

scipy now returns csc_array from loadmat, so every SBD conversion stopped at
the csc_matrix assertion.
---
 pyEdgeEval/utils/mat_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..6bfc7c3 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,8 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
-    ), f"ERR: input is not csc_matrix, but got {type(data)}"
+    # newer scipy returns sparse arrays (csc_array) instead of matrices
+    assert issparse(
+        data
+    ), f"ERR: input is not a sparse matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From 63ca493056e2e6b74847b25a051fd0cbd0460b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 23/28] fix: load SBD instance annotations holding a single
 instance

With the new loader a one-element cell array arrives unwrapped, and taking its
length failed.
---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..0fe43a4 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -9,6 +9,7 @@ from typing import Optional
 
 import numpy as np
 from PIL import Image
+from scipy.sparse import issparse
 
 from pyEdgeEval.common.multi_label import (
     rgb_multilabel_encoding,
@@ -81,6 +82,9 @@ def load_sbd_gt_inst_mat(path: str, new_loader: bool = False):
         gt = loadmat(path, True)["GTinst"]
         segmentation = gt["Segmentation"]
         boundaries = gt["Boundaries"]
+        if issparse(boundaries):
+            # the loader unwraps a single instance
+            boundaries = [boundaries]
         categories = gt["Categories"]
         if isinstance(categories, int):
             categories = np.array([categories])
-- 
2.43.0


From acc0c0e31c801b1e28f25b6f5fe2185b0d310a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 24/28] fix: save SBD instance maps as 16-bit PNG

Pillow no longer writes 32-bit images (mode I) as PNG, so the conversion
stopped after the edges were saved.
---
 pyEdgeEval/helpers/convert_sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 0fe43a4..e462de7 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -356,7 +356,8 @@ def routine(
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
         # save instance
-        inst_img = Image.fromarray(inst)
+        # 16-bit PNG: newer Pillow does not write 32-bit images as PNG
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From 41bb034156bf633e18166d09a36748700d4b7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:25 +0000
Subject: [PATCH 25/28] fix: replace only the gtFine directory of the dataset
 when converting Cityscapes

---
 pyEdgeEval/helpers/convert_cityscapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 1972cac..73ce560 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -48,7 +48,7 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(json_dir.rsplit("gtFine", 1))
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +97,7 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(label_dir.rsplit("gtFine", 1))
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From 779115b40900b6e0f0115ed60ad3c86ad929586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 26/28] fix: count unmatched pixels in the match cost when
 nothing can match

matchEdgeMaps returned a cost of 0 for two maps without any pair within the
tolerance, although each unmatched edge pixel costs outlierCost otherwise.
---
 pyEdgeEval/_lib/src/match.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 92f022b..24e8309 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -161,9 +161,17 @@ matchEdgeMaps (
     m += d3 * nmax;	// outlier-outlier connections
     m += n; 		// high-cost perfect match overlay
 
-    // If the graph is empty, then there's nothing to do.
+    // If the graph is empty, then there's nothing to match: every
+    // edge pixel is an outlier.
     if (m == 0) {
-        return 0;
+        double cost = 0;
+        for (int x = 0; x < width; x++) {
+            for (int y = 0; y < height; y++) {
+                if (bmap1(y,x)) { cost += outlierCost; }
+                if (bmap2(y,x)) { cost += outlierCost; }
+            }
+        }
+        return cost;
     }
 
     // Weight of outlier connections.
-- 
2.43.0


From 0ab86ba02ff126f8bd4c9ffa9f0b9833026acf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 27/28] fix: plot curves of algorithms with different numbers
 of thresholds

---
 pyEdgeEval/common/binary_label/visualize.py | 8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index 960383c..096a4be 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -67,17 +67,17 @@ def plot_pr_curve(
         res[i, :9] = _load_overall_results(alg.overall_results)
         res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 5ab7171..ebd4099 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -108,17 +108,17 @@ def plot_pr_curve(
         res[i, :9] = _load_overall_results(alg.overall_results)
         res[i, 9] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
-- 
2.43.0


From 884a55f5e4e199f63761484482cd704d0a8266f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:03 +0000
Subject: [PATCH 28/28] fix: save each suppressed edge map under its own name
 and keep existing ones

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,9 +113,10 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0

