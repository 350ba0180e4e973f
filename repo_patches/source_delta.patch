From a99318664c53859c1235e79ae8e074dd690f2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 01/51] fix: tile processing survives a pixel whose detector
 call fails

The handler itself raised (datetime.now is a function), so one failing pixel
ended the worker; in OBCOLD mode the previous pixel's magnitudes were stored
for it.
---
 src/python/pycold/imagetool/tile_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..23f3469 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -534,9 +534,12 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
+                        if method == "OBCOLD":
+                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     except Exception:
                         if method == "OBCOLD":
                             CM = np.full(n_cm_maps, -9999, dtype=np.short)
-- 
2.43.0


From d9af306a0ed763d36c810fe8fd4c9660aee4145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 02/51] fix: OBCOLD no longer waits for a 16th core to assemble
 CM_date maps

With fewer than 16 cores nobody assembled the change-date maps and every
core polled for them forever.
---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 23f3469..95e949c 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -636,7 +636,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From 01edae41aac7544dfce2afcfb85be4a92f408f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 03/51] fix: change-magnitude maps of tiles with different
 block counts in x and y

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From 56302774a04736213510c49a0462b6e92dcf7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 04/51] fix: assembling block arrays of tiles with different
 block counts in x and y

---
 src/python/pycold/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..8da3d02 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -311,8 +311,9 @@ def assemble_array(array_list, n_block_x):
     an array [nrows, ncols]
     """
     full_feature_array = np.hstack(array_list)
+    n_block_y = len(array_list) // n_block_x
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, n_block_y)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From 4454f8a32adc85595d77d6267967562480de253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 05/51] fix: a core that cannot read its inputs reports failure

assemble_cmmaps went on with the previous block's magnitudes when a block
file could not be read, and a core that could not read the start dates
ended with exit status 0.
---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 src/python/pycold/utils.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 95e949c..1cca523 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -368,7 +368,7 @@ def main(
             ).year
         except IOError:
             print("reading start dates errors: {}".format(start_time.strftime("%Y-%m-%d %H:%M:%S")))
-            exit()
+            exit(1)
 
     # logging and folder preparation
     if rank == 1:
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 8da3d02..cd5dd7b 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            raise
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 1e9c10f729f3f3aae75cf6f455f9a82302c97e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 06/51] fix: every core makes sure that the result folder
 exists

Only the first core created it, so a core that finished a block earlier, or
ran alone after a crash, failed to save its records.
---
 src/python/pycold/imagetool/tile_processing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 1cca523..0dd1b6d 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -371,12 +371,10 @@ def main(
             exit(1)
 
     # logging and folder preparation
+    os.makedirs(result_path, exist_ok=True)  # any core may be the first one to save results
     if rank == 1:
-        if not os.path.exists(result_path):
-            os.makedirs(result_path)
         if method == "OBCOLD":
-            if not os.path.exists(join(result_path, "cm_maps")):
-                os.makedirs(join(result_path, "cm_maps"))
+            os.makedirs(join(result_path, "cm_maps"), exist_ok=True)
         print(
             "The per-pixel time series processing begins: {}".format(
                 start_time.strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From 1062f79791d3e9cde2627724c4aa4a4f9ea02590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 07/51] fix: maps and models that other cores poll for appear
 complete

Cores recognise change-magnitude maps, land-cover maps and the random forest
model as finished by their existence, but the files existed as soon as they
were opened for writing.
---
 src/python/pycold/pyclassifier.py | 15 +++++++++++----
 src/python/pycold/utils.py        | 16 +++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..a79da4c 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,14 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import (
+    get_block_y,
+    get_block_x,
+    get_col_index,
+    get_row_index,
+    assemble_array,
+    save_complete,
+)
 from pycold.common import DatasetInfo
 
 
@@ -439,7 +446,7 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        save_complete(rf_path, lambda f: joblib.dump(rf_model, f, compress=3))
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -465,9 +472,9 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        save_complete(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
-            full_yearlyclass_array,
+            lambda f: np.save(f, full_yearlyclass_array),
         )
 
     def _clean(self):
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index cd5dd7b..784e302 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -70,6 +70,20 @@ def get_row_index(pos, n_cols, current_block_y, block_height):
     return int((pos - 1) / n_cols) - (current_block_y - 1) * block_height
 
 
+def save_complete(path, save):
+    """
+    save a file whose existence tells other cores that it is complete: write it under another name first
+    Parameters
+    ----------
+    path: string
+        the final path
+    save: function writing the content to an opened binary file
+    """
+    with open(path + ".part", "wb") as f:
+        save(f)
+    os.replace(path + ".part", path)
+
+
 def assemble_cmmaps(
     dataset_info: DatasetInfo,
     result_path: str,
@@ -165,7 +179,7 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        save_complete(outfile, lambda f: np.save(f, cm_map))
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
-- 
2.43.0


From e846e13f72b4fab7d827dac9acc62054040e6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 08/51] fix: blocks without images in the requested date range
 are empty blocks

---
 src/python/pycold/imagetool/tile_processing.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 0dd1b6d..335da98 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,14 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
-    if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
-    if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+    files_date_zip = sorted(
+        (date, f)
+        for date, f in zip(img_dates, img_files)
+        if (low_datebound <= 0 or date >= low_datebound)
+        and (high_datebound <= 0 or date <= high_datebound)
+    )
+    if len(files_date_zip) == 0:  # no image within the requested date range
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From bd8f27b6719faded8851c01c4560e3aef74d5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 09/51] fix: object-based records use the job's settings and
 accept empty blocks

---
 src/python/pycold/imagetool/tile_processing.py | 5 ++++-
 src/python/pycold/ob_analyst.py                | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 335da98..c836f0d 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -730,13 +730,16 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..f251e67 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1080,6 +1080,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1088,6 +1089,8 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            conse: the number of consecutive observations
+            b_c2: indicate if it is c2 or hls
         Returns:
             change records
         """
@@ -1130,6 +1133,7 @@ class ObjectAnalystHPC:
                     img_stack[pos, 7, :].astype(np.int64),
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
+                    b_c2=b_c2,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
                 )
             except RuntimeError:
@@ -1147,6 +1151,8 @@ class ObjectAnalystHPC:
     def save_obcoldrecords(self, block_id, result_collect):
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
+        if not result_collect:  # no change record in the block
+            return
         np.save(
             join(
                 self.obcold_recg_path, "record_change_x{}_y{}_obcold.npy".format(block_x, block_y)
-- 
2.43.0


From 9bfc1a8c64f058a922ab078438655e103ccda40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 10/51] fix: a restarted core leaves finished OBIA snapshots
 alone

---
 src/python/pycold/imagetool/tile_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index c836f0d..5a9e1d0 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -704,6 +704,8 @@ def main(
                 if starting_date + (rank - 1 + i * n_cores) * cm_output_interval > max_date:
                     break
                 date = starting_date + (rank - 1 + i * n_cores) * cm_output_interval
+                if ob_analyst.is_finished_object_analysis([date]):
+                    continue  # other cores may already be reading it
                 ob_analyst.obia_execute(date, cm_output_interval=cm_output_interval)
 
             while not ob_analyst.is_finished_object_analysis(
-- 
2.43.0


From 1b65647e1d264b6fd8317cdda6be7163aa4e08c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 11/51] fix: restarted cores neither redo finished
 classification blocks nor leave temp files

---
 src/python/pycold/imagetool/tile_processing.py |  6 ++++++
 src/python/pycold/pyclassifier.py              | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 5a9e1d0..4a2de12 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -665,6 +665,8 @@ def main(
                     for i in range(nblock_eachcore):
                         if n_cores * i + rank > dataset_info.n_block_x * dataset_info.n_block_y:
                             break
+                        if pyclassifier.is_finished_block("step1_predict", n_cores * i + rank):
+                            continue  # other cores may already be reading it
                         pyclassifier.step1_feature_generation(block_id=n_cores * i + rank)
 
                 if rank == 1:  # serial mode for producing rf
@@ -678,10 +680,14 @@ def main(
                 for i in range(nblock_eachcore):
                     if n_cores * i + rank > dataset_info.n_block_x * dataset_info.n_block_y:
                         break
+                    if pyclassifier.is_finished_block("step3_classification", n_cores * i + rank):
+                        continue  # its temp files may be being cleaned
                     pyclassifier.step3_classification(block_id=n_cores * i + rank)
 
                 if rank == 1:  # serial mode for assemble
                     pyclassifier.step4_assemble()
+            elif rank == 1:  # the previous run may have ended before its temp files were cleaned
+                pyclassifier._clean()
             while not pyclassifier.is_finished_step4_assemble():
                 time.sleep(15)
             if rank == 1:
diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index a79da4c..3c8f56c 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -543,6 +543,20 @@ class PyClassifierHPC(PyClassifier):
             except IOError as e:
                 raise e
 
+    def is_finished_block(self, step, block_id):
+        """
+        Parameters
+        ----------
+        step: string, "step1_predict" or "step3_classification"
+        block_id: integer
+        Returns
+        -------
+        True -> the block needs no more processing in the step. The flags of the blocks are only
+        cleaned when all classification maps were assembled
+        """
+        flag = join(self.tmp_path, "tmp_{}_{}_finished.txt".format(step, block_id))
+        return exists(flag) or self.is_finished_step4_assemble()
+
     def step1_feature_generation(self, block_id):
         if os.path.exists(
             join(self.record_path, "record_change_x{}_y{}_cold.npy").format(
-- 
2.43.0


From 57f6e639a8f3a6e491dfac32da088adaed616a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 12/51] fix: tiles that cannot be divided into equal blocks are
 rejected

---
 src/python/pycold/imagetool/tile_processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 4a2de12..f3edae8 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -347,14 +347,14 @@ def main(
     cm_output_interval = int(config_general["ALGORITHMINFO"]["CM_OUTPUT_INTERVAL"])
     probability_threshold = config_general["ALGORITHMINFO"]["probability_threshold"]
 
-    if (dataset_info.n_cols % dataset_info.block_width != 0) or (
-        dataset_info.n_rows % dataset_info.block_height != 0
+    if (dataset_info.n_cols % dataset_info.n_block_x != 0) or (
+        dataset_info.n_rows % dataset_info.n_block_y != 0
     ):
         print(
-            "n_cols, n_rows must be divisible respectively by dataset_info.block_width, dataset_info.block_height! Please double "
+            "n_cols, n_rows must be divisible respectively by dataset_info.n_block_x, dataset_info.n_block_y! Please double "
             "check your config yaml"
         )
-        exit()
+        exit(1)
 
     # set up additional parameters for obcold
     if method == "OBCOLD":
-- 
2.43.0


From 1cc35eef8649e159351c23744f2af64283d990ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 13/51] fix: reconstructed object-based records use the pixel's
 snow fraction

obcold_reconstruction_procedure passed an uninitialised sn_pct to
inefficientobs_procedure, so that a pixel with few clear observations was
treated as a snow pixel or not depending on what was left on the stack.
---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..672a9df 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5501,6 +5501,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From ee649d13be58f96ecb68225b52f479b82a87d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 14/51] fix: thermal band of pixels with few clear observations

The thermal value of every observation was written to one slot, so the
fit read uninitialised memory.
---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 672a9df..dc68f26 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From 2b71b18557fc7fcd9cd80e8ebd2ad5522851396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 15/51] fix: looking up a date in an empty series returns the
 first index

It returned an uninitialised index, which the caller then read from.
---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..b0e1b02 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -1115,7 +1115,7 @@ int find_index_clrx
     int i;
     bool find_success = FALSE;
     int min_abs_diff = 9999999;
-    int minabsdiff_i_record ;
+    int minabsdiff_i_record = 0;
     for(i = 0; i < end; i++){
         if (clrx[i] == input_ordinal_date){
            find_success = TRUE;
-- 
2.43.0


From f06a332cd68706fda5d4a3a28adb5f0c73ef3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 16/51] fix: S-CCD initialization reads no observations before
 the first one

With fewer than conse observations before the first stable segment, the
magnitude was computed from memory in front of the series.
---
 src/cxx/s_ccd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..56f4037 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1344,7 +1344,8 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        // there may be fewer observations than conse before the start of the curve
+        ini_conse = min(conse, *i_start);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From b2d975c5acbb07a4c407a5840771ff24caead31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 17/51] fix: pinpoint records near the end of the series

The observations behind a pinpoint were read from beyond the last one.
---
 src/cxx/s_ccd.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 56f4037..bdeba91 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1878,11 +1878,22 @@ int step2_KF_ChangeDetection(
                     rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = (short int)min_cm;
                     for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
                     {
-                        for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                        if (cur_i + k < *n_clr)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                            {
+                                rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            }
+                            rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        }
+                        else
+                        {
+                            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                            {
+                                rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = 0;
+                            }
+                            rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From e08e63033c23a912bc654e1e85a62a43ef5d200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 18/51] fix: near-real-time monitoring with conse below 8
 invents no observations

The state keeps conse observations and pads with zeros, but an update
read all 8 of them back, as observations on the day Landsat 4 was
launched with zero reflectance.
---
 src/cxx/s_ccd.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index bdeba91..338abca 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -76,6 +76,7 @@ int sccd(
     float date_vario;          /* median date                                          */
     float min_rmse_float[TOTAL_IMAGE_BANDS_SCCD];
     int len_clrx; /* length of clrx  */
+    int num_obs_tail = 0; /* number of observations kept in nrt_model  */
     int n_clr_record;
     int valid_nrt_mode[] = {0, 1, 2, 3, 4, 5, 11, 12};
     bool isinvalid_nrtmode = TRUE;
@@ -102,7 +103,11 @@ int sccd(
     if ((*nrt_mode == NRT_QUEUE_SNOW) | (*nrt_mode % 10 == NRT_QUEUE_STANDARD) | (*nrt_mode % 10 == NRT_MONITOR2QUEUE))
         len_clrx = valid_num_scenes + *num_obs_queue;
     else if ((*nrt_mode == NRT_MONITOR_SNOW) | (*nrt_mode % 10 == NRT_MONITOR_STANDARD))
-        len_clrx = valid_num_scenes + DEFAULT_CONSE_SCCD;
+    {
+        // the standard procedure keeps the last conse observations, the snow procedure a fixed number
+        num_obs_tail = (*nrt_mode == NRT_MONITOR_SNOW) ? DEFAULT_CONSE_SCCD : conse;
+        len_clrx = valid_num_scenes + num_obs_tail;
+    }
     else
         len_clrx = valid_num_scenes;
 
@@ -164,8 +169,8 @@ int sccd(
     }
     else if ((*nrt_mode == NRT_MONITOR_SNOW) | (*nrt_mode % 10 == NRT_MONITOR_STANDARD))
     {
-        //  if monitor mode, will append output_nrtmodel default conse-1 obs
-        for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
+        //  if monitor mode, will append the observations kept in output_nrtmodel
+        for (k = 0; k < num_obs_tail; k++)
         {
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-- 
2.43.0


From a39dcf232a9e1531ce937d6ed2723e9b8db9dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 19/51] fix: a full near-real-time queue keeps the newest
 observation

It was lost when the queue was cut to its maximum length.
---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 338abca..bd90a40 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2523,7 +2523,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From 094b92175be08da368976814f359745d878b13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 20/51] fix: median variogram of zero or one observation sets
 every band

Only the first band was written, so the minimum rmse of a pixel whose
first batch holds a single clear observation came from stack memory.
---
 src/cxx/misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..78bddba 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,20 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
+       *max_neighdate_diff = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        *max_neighdate_diff = 0;
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From c3e1ba5349e7f0507800c0429142511a9f6ae3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 21/51] fix: a failed S-CCD step raises an error instead of a
 break or an endless loop

---
 src/cxx/defines.h |  2 +-
 src/cxx/s_ccd.c   | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cxx/defines.h b/src/cxx/defines.h
index 4c5f614..ed8ebb2 100644
--- a/src/cxx/defines.h
+++ b/src/cxx/defines.h
@@ -86,7 +86,7 @@
 
 /* step3_KF_ChangeDetection RETURN_VALUE*/
 #define REGULAREND 0
-#define CHANGEDETECTED 1
+#define CHANGEDETECTED 3 /* must differ from FAILURE */
 #define FALSECHANGE 2
 
 /* for ini_mode in sccd */
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index bd90a40..28c8d77 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2802,7 +2802,11 @@ int sccd_standard(
                                                &prev_i_break, rmse_ini);
             }
 
-            if (INCOMPLETE == status)
+            if (FAILURE == status)
+            {
+                RETURN_ERROR("Initializing the model failed\n", FUNC_NAME, FAILURE);
+            }
+            else if (INCOMPLETE == status)
             {
                 i++;
             }
@@ -2843,8 +2847,12 @@ int sccd_standard(
                     /*  initialize a and p                                        */
                     /*                                                            */
                     /**************************************************************/
-                    step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, i, fit_cft, cov_p[i_b],
-                                         i_b, &sum_square_vt[i_b], n_clr);
+                    status = step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, i, fit_cft, cov_p[i_b],
+                                                  i_b, &sum_square_vt[i_b], n_clr);
+                    if (status != SUCCESS)
+                    {
+                        RETURN_ERROR("Initializing the state space model failed\n", FUNC_NAME, FAILURE);
+                    }
                 }
                 num_obs_processed = i - i_start + 1;
                 t_start = clrx[i_start];
@@ -2872,7 +2880,11 @@ int sccd_standard(
                                               t_start, b_pinpoint, rec_cg_pinpoint, num_fc_pinpoint, gate_tcg,
                                               &norm_cm_scale100, &cm_angle_scale100, CM_outputs, T_MAX_CG_SCCD);
 
-            if (status == CHANGEDETECTED)
+            if (status == FAILURE)
+            {
+                RETURN_ERROR("Kalman-filter change detection failed\n", FUNC_NAME, FAILURE);
+            }
+            else if (status == CHANGEDETECTED)
             {
                 /**********************************************/
                 /*                                            */
@@ -3059,6 +3071,10 @@ int sccd_standard(
                                   i_start, prev_i_break, nrt_model, num_obs_queue,
                                   obs_queue, sum_square_vt, num_obs_processed, t_start,
                                   conse, min_rmse, gate_tcg, change_detected, predictability_tcg);
+    if (status != SUCCESS)
+    {
+        RETURN_ERROR("Processing the end of the time series failed\n", FUNC_NAME, FAILURE);
+    }
 
     // update mode - condition 4
     //    if ((*nrt_mode % 10 == NRT_MONITOR_STANDARD) && (bl_train == 0))
-- 
2.43.0


From b2099e44c7a82eb08177c60e79f459ebcbea35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 22/51] fix: more segments than the output buffer holds is an
 error, not an overflow

---
 src/cxx/cold.c  | 112 ++++++++++++------------------------------------
 src/cxx/s_ccd.c |  21 +++++++++
 2 files changed, 48 insertions(+), 85 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index dc68f26..dd7549f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1356,18 +1356,9 @@ int stand_procedure_fixeddays
                     *num_fc = *num_fc + 1;
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg belongs to the caller and holds NUM_FC records */
+                        RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                                     FUNC_NAME, FAILURE);
                     }
                 }
             } /* end of initializing model */
@@ -2034,18 +2025,9 @@ int stand_procedure_fixeddays
 
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg belongs to the caller and holds NUM_FC records */
+                        RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                                     FUNC_NAME, FAILURE);
                     }
 
                     /**********************************************/
@@ -2464,18 +2446,9 @@ int stand_procedure_fixeddays
             //*num_fc = *num_fc + 1;
             if (*num_fc >= NUM_FC)
             {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
+                /* rec_cg belongs to the caller and holds NUM_FC records */
+                RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                             FUNC_NAME, FAILURE);
             }
         }else{
            *num_fc = *num_fc - 1;
@@ -3756,18 +3729,9 @@ int stand_procedure
                     *num_fc = *num_fc + 1;
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg belongs to the caller and holds NUM_FC records */
+                        RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                                     FUNC_NAME, FAILURE);
                     }
                 }
             } /* end of initializing model */
@@ -4355,18 +4319,9 @@ int stand_procedure
 
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg belongs to the caller and holds NUM_FC records */
+                        RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                                     FUNC_NAME, FAILURE);
                     }
 
                     /**********************************************/
@@ -4706,18 +4661,9 @@ int stand_procedure
             //*num_fc = *num_fc + 1;
             if (*num_fc >= NUM_FC)
             {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
+                /* rec_cg belongs to the caller and holds NUM_FC records */
+                RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                             FUNC_NAME, FAILURE);
             }
         }else{
            *num_fc = *num_fc - 1;
@@ -5136,19 +5082,9 @@ int inefficientobs_procedure
 
         if (*num_fc >= NUM_FC)
         {
-
-            /******************************************************/
-            /*                                                    */
-            /* Reallocate memory for rec_cg.                      */
-            /*                                                    */
-            /******************************************************/
-
-            rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-            if (rec_cg == NULL)
-            {
-                RETURN_ERROR("ERROR allocating rec_cg memory",
-                             FUNC_NAME, FAILURE);
-            }
+            /* rec_cg belongs to the caller and holds NUM_FC records */
+            RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                         FUNC_NAME, FAILURE);
         }
     }  // if sn_pct > T_SN
 
@@ -5771,6 +5707,12 @@ int obcold_reconstruction_procedure
                 }
             }
 
+            if (*num_fc >= NUM_FC)
+            {
+                /* rec_cg belongs to the caller and holds NUM_FC records */
+                RETURN_ERROR("ERROR more segments than rec_cg can hold",
+                             FUNC_NAME, FAILURE);
+            }
             rec_cg[*num_fc].t_start = clrx[i_last_break];
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 28c8d77..23b5c33 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1380,6 +1380,13 @@ int step1_cold_initialize(
         /* of observations, change magnitude.         */
         /*                                            */
         /**********************************************/
+        if (*num_curve >= NUM_FC)
+        {
+            /* the caller's buffer holds NUM_FC records */
+            RETURN_ERROR("ERROR more records than the output can hold",
+                         FUNC_NAME, FAILURE);
+        }
+
         rec_cg[*num_curve].t_break = clrx[*i_start];
         rec_cg[*num_curve].t_start = clrx[0];
         rec_cg[*num_curve].num_obs = *i_start - *prev_i_break; // SY 09182018
@@ -1844,6 +1851,13 @@ int step2_KF_ChangeDetection(
                 current_pinpoint = *num_fc_pinpoint - 1;
             }
 
+            if (current_pinpoint >= NUM_FC)
+            {
+                /* the caller's buffer holds NUM_FC records */
+                RETURN_ERROR("ERROR more records than the output can hold",
+                             FUNC_NAME, FAILURE);
+            }
+
             if (break_mag > CM_outputs[current_CM_n])
             // if ((*num_fc_pinpoint == 0) | (clrx[cur_i] - rec_cg_pinpoint[*num_fc_pinpoint - 1].t_break > AVE_DAYS_IN_A_YEAR))// must has a gap of 1 year with the last pinpoint break
             {
@@ -1989,6 +2003,13 @@ int step2_KF_ChangeDetection(
             tmp = MAX_SHORT;
         *norm_cm_scale100 = tmp;
 
+        if (*num_curve >= NUM_FC)
+        {
+            /* the caller's buffer holds NUM_FC records */
+            RETURN_ERROR("ERROR more records than the output can hold",
+                         FUNC_NAME, FAILURE);
+        }
+
         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
         {
             rec_cg[*num_curve].rmse[i_b] = sqrtf((float)rmse_band[i_b]);
-- 
2.43.0


From 5616d99d82b44c698e8494c1c44ae41ff978898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 23/51] fix: failed native memory requests are reported by
 every detector

---
 src/cxx/KFAS.c  | 44 ++++++++++++------------
 src/cxx/cold.c  | 51 ++++++++++++++++++++++++++++
 src/cxx/misc.c  | 54 +++++++++++++++++++++---------
 src/cxx/s_ccd.c | 89 +++++++++++++++++++++++++++----------------------
 4 files changed, 160 insertions(+), 78 deletions(-)

diff --git a/src/cxx/KFAS.c b/src/cxx/KFAS.c
index 0e82187..53c86ff 100644
--- a/src/cxx/KFAS.c
+++ b/src/cxx/KFAS.c
@@ -19,11 +19,12 @@ void filter1step_missingobs
     int m             /*I*/
 )
 {
-    gsl_matrix* mm;
+    double mm_data[m * m];
+    gsl_matrix_view mm_view = gsl_matrix_view_array(mm_data, m, m);
+    gsl_matrix* mm = &mm_view.matrix;
 
 
     //memcpy(zt_sub, &zt[1], 2*sizeof(*a));
-    mm = gsl_matrix_alloc(m, m);
     /* mm = tt*pt*/
     gsl_blas_dsymm(CblasRight, CblasUpper, 1.0, pt, tt, 0.0, mm);
 
@@ -31,7 +32,6 @@ void filter1step_missingobs
     gsl_blas_dgemm(CblasNoTrans, CblasTrans, 1.0, mm, tt, 0.0, pt);
     gsl_matrix_add(pt, rqr);
 
-    gsl_matrix_free(mm);
 
     /* force negative to be zero */
 //    for(k1 = 0; k1 < m; k1++){
@@ -65,11 +65,13 @@ void filter1step_validobs
     double finv;
     double tmp;
     double p;
-    gsl_vector* ahelp;
-    gsl_matrix* mm;
+    double ahelp_data[m];
+    gsl_vector_view ahelp_view = gsl_vector_view_array(ahelp_data, m);
+    gsl_vector* ahelp = &ahelp_view.vector;
+    double mm_data[m * m];
+    gsl_matrix_view mm_view = gsl_matrix_view_array(mm_data, m, m);
+    gsl_matrix* mm = &mm_view.matrix;
 
-    ahelp = gsl_vector_alloc(m);
-    mm = gsl_matrix_alloc(m, m);
 
     /*kt = zt*pt*/
     gsl_blas_dsymv(CblasUpper, 1.0, pt,
@@ -120,8 +122,6 @@ void filter1step_validobs
 //            }
 //        }
 //    }
-    gsl_vector_free(ahelp);
-    gsl_matrix_free(mm);
 
     return;
 }
@@ -149,11 +149,13 @@ void dfilter1step_validobs
     double finv;
     double tmp;
     double p;
-    gsl_vector* ahelp;
-    gsl_matrix* mm;
+    double ahelp_data[m];
+    gsl_vector_view ahelp_view = gsl_vector_view_array(ahelp_data, m);
+    gsl_vector* ahelp = &ahelp_view.vector;
+    double mm_data[m * m];
+    gsl_matrix_view mm_view = gsl_matrix_view_array(mm_data, m, m);
+    gsl_matrix* mm = &mm_view.matrix;
 
-    ahelp = gsl_vector_alloc(m);
-    mm = gsl_matrix_alloc(m, m);
 
     /*kt = zt*pt*/
     gsl_blas_dsymv(CblasUpper, 1.0, pt,
@@ -198,8 +200,6 @@ void dfilter1step_validobs
 
     if(*rankp == 0)
     {
-        gsl_vector_free(ahelp);
-        gsl_matrix_free(mm);
         return;
     }
 
@@ -221,8 +221,6 @@ void dfilter1step_validobs
     /* pinf = mm * tt^T */
     gsl_blas_dgemm(CblasNoTrans, CblasTrans, 1.0, mm, tt, 0.0, pinf);
 
-    gsl_vector_free(ahelp);
-    gsl_matrix_free(mm);
 
     return;
 }
@@ -244,11 +242,13 @@ void dfilter1step_missingobs
     bool fast_mode
 )
 {
-    gsl_vector* ahelp;
-    gsl_matrix* mm;
+    double ahelp_data[m];
+    gsl_vector_view ahelp_view = gsl_vector_view_array(ahelp_data, m);
+    gsl_vector* ahelp = &ahelp_view.vector;
+    double mm_data[m * m];
+    gsl_matrix_view mm_view = gsl_matrix_view_array(mm_data, m, m);
+    gsl_matrix* mm = &mm_view.matrix;
 
-    ahelp = gsl_vector_alloc(m);
-    mm = gsl_matrix_alloc(m, m);
     //memcpy(zt_sub, &zt[1], 2*sizeof(*a));
 
     if (fast_mode == FALSE)
@@ -274,8 +274,6 @@ void dfilter1step_missingobs
     /* pinf = mm * tt^T */
     gsl_blas_dgemm(CblasNoTrans, CblasTrans, 1.0, mm, tt, 0.0, pinf);
 
-    gsl_vector_free(ahelp);
-    gsl_matrix_free(mm);
     return;
 
 }
diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index dd7549f..7b1edb6 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -8,6 +8,7 @@
 #include <stdbool.h>
 #include <unistd.h>
 #include <math.h>
+#include <gsl/gsl_errno.h>
 #include "defines.h"
 #include "cold.h"
 #include "const.h"
@@ -124,7 +125,14 @@ int cold
         return (SUCCESS);
     }
 
+    // failed GSL allocations are reported by their NULL result, not by aborting the process
+    gsl_set_error_handler_off();
+
     id_range = (int*)calloc(valid_num_scenes, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, FAILURE);
+    }
 
     // check if valid_date_array is sorted
     for (i = 0; i < valid_num_scenes - 1; i++)
@@ -353,6 +361,10 @@ int stand_procedure_fixeddays
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clrx == NULL || clry == NULL)
+    {
+        RETURN_ERROR ("Allocating clrx or clry memory", FUNC_NAME, FAILURE);
+    }
 
 //        for (i = 0; i < valid_num_scenes; i++)
 //        {
@@ -2181,6 +2193,10 @@ int stand_procedure_fixeddays
         for (i_conse = adj_conse_end - 1; i_conse >= 0; i_conse--)
         {
             v_diff_tmp =(float **) allocate_2d_array(NUM_LASSO_BANDS, adj_conse_end - i_conse, sizeof (float));
+            if (v_diff_tmp == NULL)
+            {
+                RETURN_ERROR ("Allocating v_diff_tmp memory", FUNC_NAME, FAILURE);
+            }
             for (k = 0; k < NUM_LASSO_BANDS; k++)
                 for(j = 0; j < adj_conse - i_conse; j++)
                   v_diff_tmp[k][j] = v_diff[k][i_conse+j];
@@ -2700,6 +2716,10 @@ int stand_procedure
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clrx == NULL || clry == NULL)
+    {
+        RETURN_ERROR ("Allocating clrx or clry memory", FUNC_NAME, FAILURE);
+    }
 
 //        for (i = 0; i < valid_num_scenes; i++)
 //        {
@@ -4397,6 +4417,10 @@ int stand_procedure
         for (i_conse = adj_conse - 1; i_conse >= 0; i_conse--)
         {
             v_diff_tmp =(float **) allocate_2d_array(NUM_LASSO_BANDS, adj_conse - i_conse, sizeof (float));
+            if (v_diff_tmp == NULL)
+            {
+                RETURN_ERROR ("Allocating v_diff_tmp memory", FUNC_NAME, FAILURE);
+            }
             for (k = 0; k < NUM_LASSO_BANDS; k++)
                 for(j = 0; j < adj_conse - i_conse; j++)
                   v_diff_tmp[k][j] = v_diff[k][i_conse+j];
@@ -5377,7 +5401,14 @@ int obcold_reconstruction_procedure
     if(valid_num_scenes == 0){
         return (SUCCESS);
     }
+    // failed GSL allocations are reported by their NULL result, not by aborting the process
+    gsl_set_error_handler_off();
+
     id_range = (int*)calloc(valid_num_scenes, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, FAILURE);
+    }
 
     for (k = 0; k < TOTAL_IMAGE_BANDS; k++)
     {
@@ -5421,11 +5452,19 @@ int obcold_reconstruction_procedure
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clrx == NULL || clry == NULL)
+    {
+        RETURN_ERROR ("Allocating clrx or clry memory", FUNC_NAME, FAILURE);
+    }
 
 
     clrx_tmp = (int* )malloc(valid_num_scenes * sizeof(int));
     clry_tmp = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clrx_tmp == NULL || clry_tmp == NULL)
+    {
+        RETURN_ERROR ("Allocating clrx_tmp or clry_tmp memory", FUNC_NAME, FAILURE);
+    }
 
 
 
@@ -5495,10 +5534,18 @@ int obcold_reconstruction_procedure
     end = n_clr;
 
     break_list = (int* )malloc(break_date_len * sizeof(int));
+    if (break_list == NULL && break_date_len > 0)
+    {
+        RETURN_ERROR ("Allocating break_list memory", FUNC_NAME, FAILURE);
+    }
 
     if (clear_sum < N_TIMES * MAX_NUM_C){
         result = inefficientobs_procedure(valid_num_scenes,valid_date_array, buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                                  fmask_buf, id_range,sn_pct,rec_cg, num_fc, b_c2);
+        if (result != SUCCESS)
+        {
+            RETURN_ERROR ("Calling inefficientobs_procedure", FUNC_NAME, FAILURE);
+        }
     }else
     {
         /**************************************************************/
@@ -5813,6 +5860,10 @@ int obcold_reconstruction_procedure
         if(*num_fc == 0){ // apply inefficient procedure to force to have a model
             result = inefficientobs_procedure(valid_num_scenes,valid_date_array, buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                                      fmask_buf, id_range,sn_pct,rec_cg, num_fc, b_c2);
+            if (result != SUCCESS)
+            {
+                RETURN_ERROR ("Calling inefficientobs_procedure", FUNC_NAME, FAILURE);
+            }
         }
     }
 
diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 78bddba..f9e1e52 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -179,7 +179,10 @@ int adjust_median_variogram
     {
         unique_diff = (int*)malloc((dim2_len-1) * sizeof(int));
         unique_diff_freq = (int*)malloc((dim2_len-1) * sizeof(int));
-
+        if (unique_diff == NULL || unique_diff_freq == NULL)
+        {
+            RETURN_ERROR ("Allocating unique_diff memory", FUNC_NAME, ERROR);
+        }
 
         step = 1;
 
@@ -1223,14 +1226,18 @@ Date        Programmer       Reason
 
 NOTES:
 ******************************************************************************/
-void dofit(const gsl_multifit_robust_type *T,
+int dofit(const gsl_multifit_robust_type *T,
       const gsl_matrix *X, const gsl_vector *y,
       gsl_vector *c, gsl_matrix *cov)
 {
   gsl_multifit_robust_workspace * work
     = gsl_multifit_robust_alloc (T, X->size1, X->size2);
-  gsl_multifit_robust (X, y, c, cov, work);
+  int status;
+  if (work == NULL)
+    return ERROR;
+  status = gsl_multifit_robust (X, y, c, cov, work);
   gsl_multifit_robust_free (work);
+  return status;
   // work = NULL; // SY 03242019
 }
 
@@ -1274,7 +1281,7 @@ Date        Programmer       Reason
 
 NOTES:
 ******************************************************************************/
-void auto_robust_fit
+int auto_robust_fit
 (
     double **clrx,
     float **clry,
@@ -1285,7 +1292,9 @@ void auto_robust_fit
 )
 {
     int i, j;
+    char FUNC_NAME[] = "auto_robust_fit";
     const int p = 5; /* linear fit */
+    int status;
     gsl_matrix *x, *cov;
     gsl_vector *y, *c;
 
@@ -1300,6 +1309,10 @@ void auto_robust_fit
 
     c = gsl_vector_alloc (p);
     cov = gsl_matrix_alloc (p, p);
+    if (x == NULL || y == NULL || c == NULL || cov == NULL)
+    {
+        RETURN_ERROR("Allocating memory for the robust fit", FUNC_NAME, ERROR);
+    }
 
     /******************************************************************/
     /*                                                                */
@@ -1330,7 +1343,11 @@ void auto_robust_fit
     /******************************************************************/
 
 
-    dofit(gsl_multifit_robust_bisquare, x, y, c, cov);
+    status = dofit(gsl_multifit_robust_bisquare, x, y, c, cov);
+    if (status != SUCCESS)
+    {
+        RETURN_ERROR("The robust fit failed", FUNC_NAME, ERROR);
+    }
 
     for (j = 0; j < (int)c->size; j++)
     {
@@ -1347,6 +1364,8 @@ void auto_robust_fit
     gsl_vector_free (y);
     gsl_vector_free (c);
     gsl_matrix_free (cov);
+
+    return (SUCCESS);
 }
 
 
@@ -1507,7 +1526,10 @@ int auto_mask
     /*                                                                */
     /******************************************************************/
 
-    auto_robust_fit(x, clry, nums, start, 1, coefs);
+    if (auto_robust_fit(x, clry, nums, start, 1, coefs) != SUCCESS)
+    {
+        RETURN_ERROR("Calling auto_robust_fit", FUNC_NAME, ERROR);
+    }
 
     /******************************************************************/
     /*                                                                */
@@ -1515,7 +1537,10 @@ int auto_mask
     /*                                                                */
     /******************************************************************/
 
-    auto_robust_fit(x, clry, nums, start, 4, coefs2);
+    if (auto_robust_fit(x, clry, nums, start, 4, coefs2) != SUCCESS)
+    {
+        RETURN_ERROR("Calling auto_robust_fit", FUNC_NAME, ERROR);
+    }
 
     /******************************************************************/
     /*                                                                */
@@ -2704,6 +2729,9 @@ int c_glmnet
            &nlam, &flmin, ulam, &thr, &isd,
            lmu, a0, &ca[0][0], ia, nin, rsq, alm, &nlp, &jerr);
 
+    if (jerr != 0)
+        return jerr;
+
     //printf("step2 \n");
     // solns_(&ni, &nx, lmu, &ca[0][0], ia, nin, &b[0][0]);
 
@@ -2717,8 +2745,7 @@ int c_glmnet
         }
         else
         {
-            int* oja;
-            oja = malloc(nin[0] * sizeof(int));
+            int oja[nin[0]];
             for(int k = 0; k < nin[0]; k++)
                 oja[k] = k;
 
@@ -2734,7 +2761,6 @@ int c_glmnet
                 cfs[i][ia[j]] = (double)ca[i][oja[j]];
             }
 
-            free(oja);
        }
     }
 
@@ -3096,10 +3122,9 @@ float MediumAngl(
     float product;
     float norm1;
     float norm2;
-    float* angle;
     if (i_count > 1)
     {
-        angle = (float *)malloc((i_count - 1) * sizeof(float));
+        float angle[i_count - 1];
 
         for(i = 0; i < i_count - 1; i++)
         {
@@ -3129,7 +3154,6 @@ float MediumAngl(
             y = angle[m] ;
         }
 
-        free(angle);
 
     }
     else
@@ -3154,12 +3178,11 @@ float angl_scatter_measure
     float product;
     float norm1;
     float norm2;
-    float* angle;
     float angle_sum = 0;
     float interm;
     if (i_count > 2)
     {
-        angle = (float *)malloc((i_count) * sizeof(float));
+        float angle[i_count];
 
         for(i = 0; i < i_count ; i++)
         {
@@ -3194,7 +3217,6 @@ float angl_scatter_measure
 //            y = angle[m] ;
 //        }
         y = angle_sum / (i_count);
-        free(angle);
 
     }
     else
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 23b5c33..e9caba2 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1,4 +1,5 @@
 ﻿#include <gsl/gsl_blas.h>
+#include <gsl/gsl_errno.h>
 #include <gsl/gsl_vector.h>
 #include <gsl/gsl_matrix.h>
 #include "math.h"
@@ -111,7 +112,14 @@ int sccd(
     else
         len_clrx = valid_num_scenes;
 
+    // failed GSL allocations are reported by their NULL result, not by aborting the process
+    gsl_set_error_handler_off();
+
     id_range = (int *)calloc(len_clrx, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, FAILURE);
+    }
     clrx = (int *)malloc(len_clrx * sizeof(int));
     if (clrx == NULL)
     {
@@ -239,6 +247,10 @@ int sccd(
                     status = adjust_median_variogram(clrx, clry, TOTAL_IMAGE_BANDS_SCCD, 0,
                                                      n_clr - 1, &date_vario, &max_date_difference,
                                                      min_rmse_float, 1);
+                    if (status != SUCCESS)
+                    {
+                        RETURN_ERROR("ERROR calling median_variogram routine", FUNC_NAME, FAILURE);
+                    }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         min_rmse[i_b] = (short int)min_rmse_float[i_b];
                 }
@@ -372,7 +384,6 @@ int step1_ssm_initialize(
     float *clry_extend;
     int num_year_range = (int)ceil((clrx[stable_end] - clrx[stable_start] + 1) / AVE_DAYS_IN_A_YEAR);
     int stable_nobs = stable_end - stable_start + 1;
-    gsl_vector *state_a;
     // we need add an additional obs to allow KF_ts_filter_regular
     clrx_extend = (int *)malloc((stable_nobs * 2 + 1) * sizeof(int));
     if (clrx_extend == NULL)
@@ -381,11 +392,10 @@ int step1_ssm_initialize(
     }
 
     clry_extend = (float *)malloc((stable_nobs * 2 + 1) * sizeof(float));
-    if (clrx_extend == NULL)
+    if (clry_extend == NULL)
     {
         RETURN_ERROR("Allocating clry_extend memory", FUNC_NAME, FAILURE);
     }
-    state_a = gsl_vector_alloc(instance->m);
 
     /* generate a copy of observation at the head of clrx_extend and clry_extend */
     //    for (i = 0; i < stable_nobs + EXTEND_OBS  + 1; i++)
@@ -507,7 +517,6 @@ int step1_ssm_initialize(
     free(state_sum);
     free(clrx_extend);
     free(clry_extend);
-    gsl_vector_free(state_a);
     return SUCCESS;
 }
 
@@ -1499,18 +1508,15 @@ int KF_ts_predict_conse(
     bool b_foutput)
 {
     int i;
-    gsl_vector *kt;
-    gsl_vector *kt_tmp;
+    double kt_data[DEFAULT_N_STATE];
+    gsl_vector_view kt_view = gsl_vector_view_array(kt_data, DEFAULT_N_STATE);
+    gsl_vector *kt = &kt_view.vector;
+    double kt_tmp_data[DEFAULT_N_STATE];
+    gsl_vector_view kt_tmp_view = gsl_vector_view_array(kt_tmp_data, DEFAULT_N_STATE);
+    gsl_vector *kt_tmp = &kt_tmp_view.vector;
     double ft_tmp;
     //    gsl_matrix* pt;         /*  A m x m matrix containing the covariance matrix for last_pred_loc */
     //    gsl_vector* at;
-    gsl_matrix *mm;
-    if (b_foutput == TRUE)
-    {
-        mm = gsl_matrix_alloc(instance->m, instance->m);
-        kt = gsl_vector_alloc(instance->m);
-        kt_tmp = gsl_vector_alloc(instance->m);
-    }
     double w = TWO_PI / AVE_DAYS_IN_A_YEAR;
     double w2 = 2 * w;
 
@@ -1575,14 +1581,6 @@ int KF_ts_predict_conse(
         //        }
     }
 
-    if (b_foutput == TRUE)
-    {
-        gsl_vector_free(kt);
-        //    gsl_matrix_free(pt);
-        //    gsl_vector_free(at);
-        gsl_vector_free(kt_tmp);
-        gsl_matrix_free(mm);
-    }
     return SUCCESS;
 }
 
@@ -1598,15 +1596,18 @@ int KF_ts_filter_regular(
     bool steady)
 {
     int j;
-    gsl_vector *kt;
-    gsl_vector *att;
-    gsl_vector *state_a; // filtered states
+    double kt_data[DEFAULT_N_STATE];
+    gsl_vector_view kt_view = gsl_vector_view_array(kt_data, DEFAULT_N_STATE);
+    gsl_vector *kt = &kt_view.vector;
+    double att_data[DEFAULT_N_STATE];
+    gsl_vector_view att_view = gsl_vector_view_array(att_data, DEFAULT_N_STATE);
+    gsl_vector *att = &att_view.vector;
+    double state_a_data[DEFAULT_N_STATE];
+    gsl_vector_view state_a_view = gsl_vector_view_array(state_a_data, DEFAULT_N_STATE);
+    gsl_vector *state_a = &state_a_view.vector; // filtered states
     // double vt;
     double ft;
 
-    kt = gsl_vector_alloc(instance->m);
-    att = gsl_vector_alloc(instance->m);
-    state_a = gsl_vector_alloc(instance->m);
     /* this loop predicts every missing values between two observation dates */
     for (j = 0; j < clrx[cur_i + 1] - clrx[cur_i]; j++) /* predict ith observation */
     {
@@ -1641,10 +1642,6 @@ int KF_ts_filter_regular(
         // printf("ft for %d is %f: \n", clrx[cur_i] + j, ft);
     }
 
-    gsl_vector_free(kt);
-    gsl_vector_free(att);
-    gsl_vector_free(state_a);
-
     return SUCCESS;
 }
 
@@ -1655,11 +1652,11 @@ int KF_ts_filter_falsechange(
     int cur_i)
 {
     int j;
-    gsl_vector *kt;
+    double kt_data[DEFAULT_N_STATE];
+    gsl_vector_view kt_view = gsl_vector_view_array(kt_data, DEFAULT_N_STATE);
+    gsl_vector *kt = &kt_view.vector;
     double ft;
 
-    kt = gsl_vector_alloc(instance->m);
-
     /* this loop predicts every missing values between two observation dates */
     for (j = 0; j < clrx[cur_i + 1] - clrx[cur_i]; j++) /* predict ith observation */
     {
@@ -1667,8 +1664,6 @@ int KF_ts_filter_falsechange(
                                &ft, cov_p, kt, instance->m);
     }
 
-    gsl_vector_free(kt);
-
     return SUCCESS;
 }
 
@@ -1866,6 +1861,10 @@ int step2_KF_ChangeDetection(
                     v_diff_tmp = (float **)allocate_2d_array(NUM_LASSO_BANDS, conse_last, sizeof(float)); // used to calculate angle
                     v_dif_mag_tmp = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD, conse_last,
                                                                 sizeof(float));
+                    if (v_diff_tmp == NULL || v_dif_mag_tmp == NULL)
+                    {
+                        RETURN_ERROR("Allocating v_diff_tmp or v_dif_mag_tmp memory", FUNC_NAME, FAILURE);
+                    }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
                         for (b = 0; b < NUM_LASSO_BANDS; b++)
@@ -2432,6 +2431,10 @@ int step3_processing_end(
                 v_diff_tmp = (float **)allocate_2d_array(NUM_LASSO_BANDS, conse_last, sizeof(float));
                 v_dif_mag_tmp = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD, conse_last,
                                                             sizeof(float));
+                if (v_diff_tmp == NULL || v_dif_mag_tmp == NULL)
+                {
+                    RETURN_ERROR("Allocating v_diff_tmp or v_dif_mag_tmp memory", FUNC_NAME, FAILURE);
+                }
                 for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                 {
                     for (b = 0; b < NUM_LASSO_BANDS; b++)
@@ -2823,7 +2826,7 @@ int sccd_standard(
                                                &prev_i_break, rmse_ini);
             }
 
-            if (FAILURE == status)
+            if ((SUCCESS != status) && (INCOMPLETE != status))
             {
                 RETURN_ERROR("Initializing the model failed\n", FUNC_NAME, FAILURE);
             }
@@ -3223,6 +3226,10 @@ int sccd_snow(
         }
         state_a[i_b] = gsl_vector_alloc(DEFAULT_N_STATE);
         cov_p[i_b] = gsl_matrix_calloc(DEFAULT_N_STATE, DEFAULT_N_STATE);
+        if (state_a[i_b] == NULL || cov_p[i_b] == NULL)
+        {
+            RETURN_ERROR("Allocating state_a or cov_p memory", FUNC_NAME, FAILURE);
+        }
     }
 
     fit_cft = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD, SCCD_NUM_C, sizeof(float));
@@ -3320,8 +3327,12 @@ int sccd_snow(
             /*  initialize a and p                                        */
             /*                                                            */
             /**************************************************************/
-            step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - 1,
-                                 fit_cft, cov_p[i_b], i_b, &sum_square_vt[i_b], n_clr);
+            status = step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - 1,
+                                          fit_cft, cov_p[i_b], i_b, &sum_square_vt[i_b], n_clr);
+            if (status != SUCCESS)
+            {
+                RETURN_ERROR("Initializing the state space model failed\n", FUNC_NAME, FAILURE);
+            }
             nrt_model[0].H[i_b] = instance[i_b].H;
         }
 
-- 
2.43.0


From a18a13d464aea6b1e9728a947f2505ceefda0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 24/51] fix: updating a monitoring state leaves the state it
 starts from unmodified

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..7cdf097 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -484,7 +484,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 94070f76b5b939d3f0222ba1c6c92ab97ca9acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 25/51] fix: S-CCD states can be pickled

---
 src/python/pycold/_colds_cython.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 7cdf097..4d551e4 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -11,7 +11,7 @@ from collections import namedtuple
 from copy import deepcopy
 cimport cython
 from cpython.mem cimport PyMem_Malloc, PyMem_Realloc, PyMem_Free
-from .common import reccg_dt, sccd_dt, nrtqueue_dt, nrtmodel_dt, pinpoint_dt
+from .common import reccg_dt, sccd_dt, nrtqueue_dt, nrtmodel_dt, pinpoint_dt, SccdOutput
 np.import_array()
 
 try:
@@ -121,8 +121,7 @@ cdef Output_sccd_pinpoint t4
 #        self.nrt_mode = nrt_mode
 #        self.nrt_model = nrt_model
 #        self.nrt_queue = nrt_queue
-SccdOutput = namedtuple("SccdOutput", "position rec_cg min_rmse nrt_mode nrt_model nrt_queue")
-SccdReccgPinpoint = namedtuple("SccdReccgPinpoint", "position rec_cg_pinpoint")
+SccdReccgPinpoint = namedtuple("SccdReccgPinpoint", "position rec_cg_pinpoint", module=__name__)
 
 def test_func():
     """
-- 
2.43.0


From 987fec608fcd3d14dd1448b7798c14ced0bbf236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 26/51] fix: disturbance identification works for every
 near-real-time state

---
 src/python/pycold/colds.py | 1 +
 src/python/pycold/utils.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..ba4cd36 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -507,6 +507,7 @@ def sccd_identify(
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
+        or len(sccd_pack.nrt_model) == 0  # void or queue mode: no model to compare with
     ):
         return sccd_pack, 0
 
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 784e302..7020bd3 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -558,7 +558,7 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    start_index = defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
-- 
2.43.0


From ae8ea280ea246648052c01e4bc7a5a70ac971a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 27/51] fix: disturbance identification uses the observations
 the model's tail holds

---
 src/python/pycold/colds.py |  3 ++-
 src/python/pycold/utils.py | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index ba4cd36..1f8e65a 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -534,7 +534,8 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+                    - int(sccd_pack.nrt_model[0]["conse_last"])
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 7020bd3..704752c 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -558,7 +558,9 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+    # the tail of the model holds as many observations as the 'conse' it was built with; unused slots are zero
+    n_tail = np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+    start_index = n_tail - int(sccd_pack.nrt_model[0]["conse_last"])
     pred_ref = np.asarray(
         [
             [
@@ -567,14 +569,12 @@ def calculate_sccd_cm(sccd_pack):
                     sccd_pack.nrt_model[0]["obs_date_since1982"][i_conse + start_index]
                     + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
                 )
-                for i_conse in range(sccd_pack.nrt_model[0]["conse_last"])
+                for i_conse in range(int(sccd_pack.nrt_model[0]["conse_last"]))
             ]
             for b in range(defaults["SCCD"]["NRT_BAND"])
         ]
     )
-    cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
-    )
+    cm = sccd_pack.nrt_model[0]["obs"][:, start_index:n_tail] - pred_ref
     return np.median(cm, axis=1)
 
 
-- 
2.43.0


From ff88aa57fdab7ff0ee1e79e10f15f5296602aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 28/51] fix: exported maps of tiles that are not square or not
 divided equally

The raster was created with rows and columns exchanged, and block rows were
split by the number of blocks in x.
---
 src/python/pycold/imagetool/export_change_map.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..807de01 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -578,7 +578,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -586,7 +586,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -604,7 +604,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
@@ -612,7 +612,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -637,7 +637,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -655,7 +655,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
-- 
2.43.0


From a092c24da22b19b4ea972ed69d4e984f99210c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 29/51] fix: S-CCD break maps

The export failed on current S-CCD records, never wrote the maps of a block and
left out the breaks of the last pixel of every block.
---
 .../pycold/imagetool/export_change_map.py     | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 807de01..c865635 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
@@ -450,9 +451,9 @@ def main(
         #         np.save(outfile, results_block[year - year_lowbound])
         #     continue
         if method == "SCCDOFFLINE":
-            for count, plot in enumerate(cold_block):
+            for plot in cold_block:
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
@@ -556,15 +557,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From d9fe6f7ac483d4835c4dfc16e3e131d391d897f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 30/51] fix: exported break maps keep breaks that are not
 followed by a segment

The break of the last record of a block was lost, and other such breaks were
categorised with the next pixel's coefficients.
---
 .../pycold/imagetool/export_change_map.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index c865635..b5c96e4 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -191,6 +191,13 @@ def index_sccdpack(sccd_pack_single):
     return sccd_pack_single
 
 
+def has_next_segment(cold_plot, i_curve):
+    """whether the record after i_curve belongs to the same pixel"""
+    return (
+        i_curve + 1 < len(cold_plot) and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+    )
+
+
 def getcategory_cold(cold_plot, i_curve):
     t_c = -200
     if (
@@ -199,7 +206,8 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -218,7 +226,8 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -494,11 +503,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From f2bed12c011d5efea4f6cd6fed8e7cdd218161d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 31/51] fix: exporting blocks without records

A missing block had no coefficient layers to assemble, an empty one failed.
---
 src/python/pycold/imagetool/export_change_map.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index b5c96e4..cd01634 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -440,6 +440,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
@@ -490,7 +495,7 @@ def main(
                         - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
                         + 1
                     )
-        else:
+        elif len(cold_block) > 0:
             cold_block.sort(order="pos")
             current_processing_pos = cold_block[0]["pos"]
             current_dist_type = 0
-- 
2.43.0


From 15bed475dbba3867f77f01ac3e7f7e134ea72c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 32/51] fix: names of coefficient layers may be separated by
 comma and blank

as in the example the tool prints.
---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index cd01634..014f802 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -327,7 +327,7 @@ def main(
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-            coefs = [str(coef) for coef in coefs]
+            coefs = [str(coef).strip() for coef in coefs]
         except ValueError:
             print(
                 "Illegal coefs inputs: example, --coefs='a0, c1, a1, b1, a2, b2, a3, b3, cv, rmse'"
-- 
2.43.0


From c827e0443218b61e5ceb4713b4e4fef6d5105435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 33/51] fix: coefficient layers requested for S-CCD are
 rejected

There are none; the export ended with an error after all processing was done.
---
 src/python/pycold/imagetool/export_change_map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 014f802..a160fe8 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -324,6 +324,9 @@ def main(
     elif method == "SCCDOFFLINE":
         out_path = os.path.join(out_path, "sccd_maps")
 
+    if coefs is not None and method == "SCCDOFFLINE":
+        raise click.UsageError("coefficient layers are not available for SCCDOFFLINE")
+
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-- 
2.43.0


From 64f48fa1852abac2fbfcee84a70cca312f98e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 34/51] fix: exporting maps works with pandas 2

whose Timestamp.toordinal accepts no date.
---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a160fe8..ccdefaa 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -495,7 +495,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
         elif len(cold_block) > 0:
@@ -504,7 +504,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -541,7 +541,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - datetime.date(break_year, 1, 1).toordinal()
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
-- 
2.43.0


From 5ed24c65cb4e418a43f4d37066b1c82c3fb5f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 35/51] fix: stacking cores agree on the order of the scenes

Scenes are assigned to cores by their position in the directory listing, whose
order is arbitrary: cores that got different orders skipped scenes.
---
 src/python/pycold/imagetool/prepare_ard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..9a01a86 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1842,6 +1842,8 @@ def main(
         folder_list = [f for f in listdir(source_dir) if f.startswith("HLS")]
     elif collection == "HLS14":
         folder_list = [y for x in os.walk(source_dir) for y in glob(os.path.join(x[0], "*.hdf"))]
+    # every core assigns the scenes by their position, so all cores need the same order
+    folder_list.sort()
 
     tmp_path = join(out_dir, "tmp{}".format(rank))
 
-- 
2.43.0


From 0848d6b27054f1a50d1b028a81800607a347a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 36/51] fix: a truncated quality band no longer ends the
 stacking core

GDAL reports a band that can be opened but not read by returning None; the core
then failed and none of its remaining scenes was stacked.
---
 src/python/pycold/imagetool/prepare_ard.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 9a01a86..7f960aa 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -225,6 +225,9 @@ def single_image_stacking_hls(
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return False
+    if QA_band is None:
+        logger.error("Reading QA band fails for {}".format(folder))
+        return False
 
     # convertQA = np.vectorize(qabitval)
     QA_band_unpacked = qabitval_array_HLS(QA_band).astype(np.short)
@@ -511,6 +514,9 @@ def single_image_stacking_hls14(
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return False
+    if QA_band is None:
+        logger.error("Reading QA band fails for {}".format(folder))
+        return False
 
     # convertQA = np.vectorize(qabitval)
     QA_band_unpacked = qabitval_array_HLS(QA_band).astype(np.short)
@@ -824,6 +830,9 @@ def single_image_stacking(
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return
+    if QA_band is None:
+        logger.error("Reading QA band fails for {}".format(folder))
+        return
 
     # convertQA = np.vectorize(qabitval)
     if b_c2 is False:
@@ -1277,6 +1286,9 @@ def single_image_stacking_collection2(
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return
+    if QA_band is None:
+        logger.error("Reading QA band fails for {}".format(folder))
+        return
 
     # convertQA = np.vectorize(qabitval)
     QA_band_unpacked = qabitval_array_c2(QA_band).astype(np.short)
-- 
2.43.0


From 6bf38c574e7686a84cbdea566b8f388631719745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 37/51] fix: a corrupt tar archive no longer ends the stacking
 core

tarfile.ReadError is not an IOError.
---
 src/python/pycold/imagetool/prepare_ard.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 7f960aa..66fd10c 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -796,9 +796,9 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
-        # return
+        return
 
     # unzip BT
     try:
@@ -809,7 +809,7 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder.replace("SR", "BT")))
                 logger.error("Unzip fails for {}".format(folder.replace("SR", "BT")))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder.replace("SR", "BT"), e))
         return
 
@@ -1267,9 +1267,9 @@ def single_image_stacking_collection2(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
-        # return
+        return
 
     try:
         QA_band = gdal.Warp(
-- 
2.43.0


From 9de79350c8fd38dcd0d9e26a13483b10de7d14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 38/51] fix: scenes of an unknown sensor are left out

The error was logged and the core then failed with an unbound name.
---
 src/python/pycold/imagetool/prepare_ard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 66fd10c..a81af1b 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -859,6 +859,7 @@ def single_image_stacking(
             sensor = "LC9"
         else:
             logger.error("Sensor is not correctly formatted for the scene {}".format(folder))
+            return
 
         col = folder[8:11]
         row = folder[11:14]
@@ -1312,6 +1313,7 @@ def single_image_stacking_collection2(
             sensor = "LT4"
         else:
             logger.error("Sensor is not correctly formatted for the scene {}".format(folder))
+            return
 
         path = folder[10:13]
         row = folder[13:16]
-- 
2.43.0


From 4961b4e50d22bb50648369f496d2f0e45eafdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 39/51] fix: a corrupt metadata file no longer ends the
 stacking core

---
 src/python/pycold/imagetool/prepare_ard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index a81af1b..837bc51 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1031,7 +1031,11 @@ def single_image_stacking(
                     )
                 )
                 return
-            tree = ET.parse(join(join(tmp_path, folder), folder.replace("_SR", ".xml")))
+            try:
+                tree = ET.parse(join(join(tmp_path, folder), folder.replace("_SR", ".xml")))
+            except ET.ParseError as e:
+                logger.error("Parsing xml fails for {}: {}".format(folder, e))
+                return
 
             # get root element
             root = tree.getroot()
-- 
2.43.0


From 80aa2f1753b211ef92682cdcc2697a8195be6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 40/51] fix: the date file of a stack appears complete

The other cores and the detection job take its existence as the sign that the
stack folders and dates are ready, but it was visible before it was written.
---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 837bc51..47f5314 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1970,8 +1970,9 @@ def main(
                 for folder in folder_list
             ]
         ordinal_dates.sort()
-        file = open(join(out_dir, "starting_last_dates.txt"), "w+")  # need to save out starting and
-        # lasting date for this tile
+        # need to save out starting and lasting date for this tile; the other cores start when the
+        # file exists, so it must not be visible before it is complete
+        file = open(join(tmp_path, "starting_last_dates.txt"), "w+")
         if low_date_bound is not None:
             tmp = pd.Timestamp.toordinal(parse(low_date_bound))
         else:
@@ -1983,6 +1984,9 @@ def main(
             tmp = 999999
         file.writelines("{}\n".format(str(np.min([ordinal_dates[-1], tmp]))))
         file.close()
+        os.replace(
+            join(tmp_path, "starting_last_dates.txt"), join(out_dir, "starting_last_dates.txt")
+        )
     else:
         # mode = w enables the log file to be overwritten
         logging.basicConfig(
-- 
2.43.0


From a19d15c0b22ba3e59cc632a62380067831b07978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 41/51] fix: a corrupt first scene no longer prevents the
 stacking job

Core 1 took the grid of the tile from the first scene of the directory, whatever
its state, and failed; the other cores then waited for ever.
---
 src/python/pycold/imagetool/prepare_ard.py | 40 ++++++++++++++--------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 47f5314..3dcb687 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1906,21 +1906,31 @@ def main(
                     # conus_image_fpath = (Path(__file__).parent / 'singlepath_landsat_conus.tif').resolve()
                     conus_image = gdal.Open(os.fspath(conus_image_fpath))
 
-                if os.path.exists(join(tmp_path, folder_list[0])):
-                    shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
-                with tarfile.open(join(source_dir, folder_list[0] + ".tar")) as tar_ref:
+                # the first readable scene defines the grid of the tile
+                for folder in folder_list:
+                    ref_image = None
+                    if os.path.exists(join(tmp_path, folder)):
+                        shutil.rmtree(join(tmp_path, folder), ignore_errors=True)
                     try:
-                        tar_ref.extractall(join(tmp_path, folder_list[0]))
-                    except Exception:
-                        logger.error("Unzip fails for {}".format(folder_list[0]))
-                if collection == "ARD":
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}B1.tif".format(folder_list[0]))
-                    )
-                else:
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}_B1.TIF".format(folder_list[0]))
-                    )
+                        with tarfile.open(join(source_dir, folder + ".tar")) as tar_ref:
+                            tar_ref.extractall(join(tmp_path, folder))
+                    except (IOError, tarfile.TarError):
+                        logger.error("Unzip fails for {}".format(folder))
+                    else:
+                        if collection == "ARD":
+                            ref_image = gdal.Open(join(tmp_path, folder, "{}B1.tif".format(folder)))
+                        else:
+                            ref_image = gdal.Open(
+                                join(tmp_path, folder, "{}_B1.TIF".format(folder))
+                            )
+                    if ref_image is not None and (
+                        ref_image.RasterYSize,
+                        ref_image.RasterXSize,
+                    ) == (dataset_info.n_rows, dataset_info.n_cols):
+                        break
+                    shutil.rmtree(join(tmp_path, folder), ignore_errors=True)
+                if ref_image is None:
+                    raise IOError("no readable scene in {}".format(source_dir))
                 trans = ref_image.GetGeoTransform()
                 proj = ref_image.GetProjection()
                 xmin = trans[0]
@@ -1939,7 +1949,7 @@ def main(
                 # must close the dst
                 dst = None  # NOQA
                 out_img = None  # NOQA
-                shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
+                shutil.rmtree(join(tmp_path, folder), ignore_errors=True)
 
         if collection == "ARD" or collection == "ARD-C2":
             ordinal_dates = [
-- 
2.43.0


From 69be4fe3b1175fdc5214ea99fb9efc825c038021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 42/51] fix: the single-path map of a tile is replaced in one
 step

When core 1 is started again, the other cores may be reading the map.
---
 src/python/pycold/imagetool/prepare_ard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 3dcb687..fe4de9a 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1944,10 +1944,12 @@ def main(
                     height=ref_image.RasterYSize,
                 )
 
-                out_fpath = join(out_dir, "singlepath_landsat_tile.tif")
+                # a core started again must not change the map while others read it
+                out_fpath = join(tmp_path, "singlepath_landsat_tile.tif")
                 dst = gdal.Warp(out_fpath, conus_image, options=params)
                 # must close the dst
                 dst = None  # NOQA
+                os.replace(out_fpath, join(out_dir, "singlepath_landsat_tile.tif"))
                 out_img = None  # NOQA
                 shutil.rmtree(join(tmp_path, folder), ignore_errors=True)
 
-- 
2.43.0


From abc84a09acac0effd6b97e0f92901e4800561d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 43/51] fix: Collection 2 scale factors of the second shortwave
 infrared and thermal bands

They were applied to each other's band: the sixth band holds surface reflectance
(SR_B7) and the seventh temperature (BT or ST).
---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index fe4de9a..85a0359 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1019,8 +1019,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1509,8 +1509,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From cb38bc989741d040b0efd5b9a1d1fcd9a2a10280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 44/51] fix: scenes with a band of another size are left out

Blocks were cut from such bands beyond the end of their memory.
---
 src/python/pycold/imagetool/prepare_ard.py | 24 ++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 85a0359..6e2e9d2 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -314,6 +314,14 @@ def single_image_stacking_hls(
             logger.error("Reading Landsat band fails for {}".format(folder))
             return False
 
+        # the blocks are cut from all bands by position
+        shape = (
+            (dataset_info.n_rows, dataset_info.n_cols) if is_partition is True else QA_band.shape
+        )
+        if any(band.shape != shape for band in (B1, B2, B3, B4, B5, B6, B7, QA_band)):
+            logger.error("Unexpected size of a band for {}".format(folder))
+            return False
+
         if is_partition is True:
             # width of a block
             bytesize = 2  # short16 = 2 * byte
@@ -582,6 +590,14 @@ def single_image_stacking_hls14(
             logger.error("Reading Landsat band fails for {}".format(folder))
             return False
 
+        # the blocks are cut from all bands by position
+        shape = (
+            (dataset_info.n_rows, dataset_info.n_cols) if is_partition is True else QA_band.shape
+        )
+        if any(band.shape != shape for band in (B1, B2, B3, B4, B5, B6, B7, QA_band)):
+            logger.error("Unexpected size of a band for {}".format(folder))
+            return False
+
         if is_partition is True:
             # width of a block
             bytesize = 2  # short16 = 2 * byte
@@ -1013,6 +1029,14 @@ def single_image_stacking(
             logger.error("Reading Landsat band fails for {}".format(folder))
             return
 
+        # the blocks are cut from all bands by position
+        shape = (
+            (dataset_info.n_rows, dataset_info.n_cols) if is_partition is True else QA_band.shape
+        )
+        if any(band.shape != shape for band in (B1, B2, B3, B4, B5, B6, B7, QA_band)):
+            logger.error("Unexpected size of a band for {}".format(folder))
+            return
+
         if b_c2 is True:
             B1 = (10000 * (B1 * 2.75e-05 - 0.2)).astype(np.int16)
             B2 = (10000 * (B2 * 2.75e-05 - 0.2)).astype(np.int16)
-- 
2.43.0


From 68f5b575b98dd1f2d6f073b243492c955c190dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 45/51] fix: unreadable Collection 2 and HLS 1.4 scenes no
 longer end the stacking core

Opening a missing band raises TypeError in gdal.Warp, and a damaged HDF file may
list no datasets.
---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 6e2e9d2..29bee58 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -518,7 +518,7 @@ def single_image_stacking_hls14(
         hdf_ds = gdal.Open(folder, gdal.GA_ReadOnly).GetSubDatasets()
         qa_ds = gdal.Open(hdf_ds[-1][0])
         QA_band = qa_ds.ReadAsArray()
-    except (ValueError, AttributeError) as e:
+    except Exception as e:
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return False
@@ -1311,7 +1311,7 @@ def single_image_stacking_collection2(
             srcNodata=1,
             outputType=gdal.GDT_UInt16,
         ).ReadAsArray()
-    except ValueError as e:
+    except Exception as e:
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return
@@ -1433,7 +1433,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except Exception as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
@@ -1509,7 +1509,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except Exception as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
-- 
2.43.0


From 83c7598153524336e4da60861fa19019d65083a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 46/51] fix: HLS 1.4 scenes in a folder that cannot be listed
 are not silently left out

---
 src/python/pycold/imagetool/prepare_ard.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 29bee58..1c42ec3 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -33,7 +33,6 @@ from importlib import resources as importlib_resources
 import pandas as pd
 import numpy as geek
 import numpy as np
-from glob import glob
 from dateutil.parser import parse
 from osgeo import gdal_array
 from osgeo import gdal
@@ -1708,6 +1707,11 @@ def single_image_stacking_collection2(
     shutil.rmtree(join(tmp_path, folder.replace("SR", "BT")), ignore_errors=True)
 
 
+def raise_error(error):
+    """os.walk and glob leave out folders they cannot read unless they are told otherwise"""
+    raise error
+
+
 def checkfinished_step1(tmp_path):
     """
     :param tmp_path:
@@ -1883,7 +1887,12 @@ def main(
     elif collection == "HLS":
         folder_list = [f for f in listdir(source_dir) if f.startswith("HLS")]
     elif collection == "HLS14":
-        folder_list = [y for x in os.walk(source_dir) for y in glob(os.path.join(x[0], "*.hdf"))]
+        folder_list = [
+            join(x[0], f)
+            for x in os.walk(source_dir, onerror=raise_error)
+            for f in x[2]
+            if f.endswith(".hdf")
+        ]
     # every core assigns the scenes by their position, so all cores need the same order
     folder_list.sort()
 
-- 
2.43.0


From a78180302e4605b804f7b8f03bce2e6725175b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 47/51] fix: pixels of the seed map without a land-cover
 category are not counted as samples of the last category

---
 src/python/pycold/pyclassifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 3c8f56c..3533bf7 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -119,8 +119,10 @@ def generate_sample_num(label, sample_parameters):
     Returns:
 
     """
+    # pixels without a land-cover category (0 or above the last category) are no samples
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From 68c0c03328d359f2fcdb4f0bec9f049ee71aed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 48/51] fix: a restarted core leaves change-magnitude maps
 already assembled alone (no partial copy stays behind)

---
 src/python/pycold/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 704752c..1c0029e 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -179,6 +179,8 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
+        if os.path.exists(outfile):  # a restarted core leaves maps already assembled alone
+            continue
         save_complete(outfile, lambda f: np.save(f, cm_map))
 
     if clean is True:
-- 
2.43.0


From 8ccc04611c902e99f77f6a37de048c2394c842df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 49/51] fix: a scene of an unknown HLS sensor is left out of
 the stack

---
 src/python/pycold/imagetool/prepare_ard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1c42ec3..c5d1455 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -301,6 +301,9 @@ def single_image_stacking_hls(
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return False
+        else:
+            logger.error("Sensor is not correctly formatted for the scene {}".format(folder))
+            return False
 
         if (
             (B1 is None)
@@ -577,6 +580,9 @@ def single_image_stacking_hls14(
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return False
+        else:
+            logger.error("Sensor is not correctly formatted for the scene {}".format(folder))
+            return False
 
         if (
             (B1 is None)
-- 
2.43.0


From 1a6edb2848521c96a8a35c8c05c3e791454faf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 50/51] fix: a scene whose metadata holds no path id is left
 out of the stack

---
 src/python/pycold/imagetool/prepare_ard.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index c5d1455..1803887 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1078,13 +1078,14 @@ def single_image_stacking(
             if len(elements) == 0:
                 logger.error("Parsing xml fails for {}".format(folder))
                 return
-            if b_c2 is False:
-                pathid = int(elements[0].attrib["path"])
-            else:
-                if elements[0][3].text is not None:
-                    pathid = int(elements[0][3].text)
+            try:
+                if b_c2 is False:
+                    pathid = int(elements[0].attrib["path"])
                 else:
-                    raise ValueError("path id could not be located.")
+                    pathid = int(elements[0][3].text)
+            except (KeyError, IndexError, TypeError, ValueError):
+                logger.error("Path id could not be located for {}".format(folder))
+                return
             # print(pathid)
 
             # assign filled value to the pixels has different path id so won't be processed
-- 
2.43.0


From 6e11aa463a6a75a52ed141de447ad896675b5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:24 +0000
Subject: [PATCH 51/51] fix: squared errors of a monitored model no longer wrap
 around

The sum of squared residuals is kept in 32 bits; for noisy series (and long
snow series) it ran over and the model's error dropped to nearly nothing.
---
 src/cxx/s_ccd.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index e9caba2..0eadb22 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -12,6 +12,7 @@
 #include "s_ccd.h"
 #include "distribution_math.h"
 #include <time.h>
+#include <limits.h>
 #define N_Columns 8
 #define Max_DOF 30
 
@@ -363,6 +364,14 @@ double F(int v1, int v2, double pr)
     return f;
 }
 
+/* adds a squared residual to a sum of squares; the sum stays at its largest value instead of wrapping around */
+static unsigned int add_square(unsigned int sum, double vt)
+{
+    double total = sum + vt * vt;
+
+    return total < UINT_MAX ? (unsigned int)total : UINT_MAX;
+}
+
 int step1_ssm_initialize(
     ssmodel_constants *instance, /* I/O: the outputted initial SSM model, we will assign H     */
     int *clrx,                   /* I: clear pixel curve in X direction (date)             */
@@ -495,7 +504,7 @@ int step1_ssm_initialize(
     {
         KF_ts_filter_regular(instance, clrx_extend, clry_extend, cov_p, fit_cft, i, i_b, &vt, FALSE);
         if (i > stable_nobs - 1)
-            *sum_square_vt = *sum_square_vt + (unsigned int)(vt * vt);
+            *sum_square_vt = add_square(*sum_square_vt, vt);
     }
 
     //    for(i = 0; i < stable_nobs + EXTEND_OBS; i++){
@@ -2089,7 +2098,7 @@ int step2_KF_ChangeDetection(
         {
             KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b],
                                  fit_cft, cur_i, i_b, &vt, steady);
-            sum_square_vt[i_b] = sum_square_vt[i_b] + vt * vt;
+            sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
         }
         *num_obs_processed = *num_obs_processed + 1;
 
@@ -3374,7 +3383,7 @@ int sccd_snow(
             for (i = 0; i < n_clr - DEFAULT_CONSE_SCCD; i++)
             {
                 KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b], fit_cft, i, i_b, &vt, FALSE);
-                sum_square_vt[i_b] = sum_square_vt[i_b] + (unsigned int)(vt * vt);
+                sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
             }
         }
     }
-- 
2.43.0

