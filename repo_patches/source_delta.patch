From 55fb4d0fa845a353f80546ba7375a5c51e156757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 01/67] fix: sort_bin_shuffle seq ordering yields int indices
 also when a bin is empty

---
 returnn/datasets/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..750be1c 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -604,7 +604,8 @@ class Dataset:
                 if seq_ordering_method.startswith("sort_bin_shuffle_x2"):
                     random_generator.shuffle(part)  # Shuffle within the bin.
                 out_index.append(part)
-            seq_index = numpy.concatenate(out_index)
+            # Explicit int dtype: An empty bin (more bins than seqs) would otherwise result in float indices.
+            seq_index = numpy.concatenate(out_index).astype("int64")
         elif seq_ordering_method.startswith("laplace"):
             assert get_seq_len
             tmp = seq_ordering_method.split(":")[1:]
-- 
2.43.0


From 254f50257d0e9a8a9594b97bcc6b2df57da7fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 02/67] fix: MetaDataset.init_seq_order re-inits same epoch
 after custom order or after already loaded seqs

---
 returnn/datasets/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..7eb1250 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -291,6 +291,7 @@ class MetaDataset(CachedDataset2):
 
         self.orig_seq_order_is_initialized = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
+        self._seq_order_is_custom = False  # whether last init_seq_order was with predefined seq_list/seq_order
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
         """
@@ -397,8 +398,11 @@ class MetaDataset(CachedDataset2):
             or self.seq_list_ordered is None
             or seq_list is not None
             or seq_order is not None
+            or self._seq_order_is_custom
             or self.expected_load_seq_start > 0
+            or self.added_data
         )
+        self._seq_order_is_custom = seq_list is not None or seq_order is not None
         super(MetaDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         if epoch is None:
             # This is called via initialize() with epoch=None, just to init some other things.
-- 
2.43.0


From 42cf0709652a089b7702716bd7fa9386e873f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 03/67] fix: ConcatDataset/CombinedDataset.init_seq_order
 re-inits sub datasets when seqs of the same epoch were loaded already

---
 returnn/datasets/meta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 7eb1250..7ff8a95 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -786,7 +786,9 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
@@ -1037,7 +1039,9 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
-- 
2.43.0


From 7d27533b9e1cad53a77ddf18a2df63556d1c37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 04/67] fix: CombinedDataset can be pickled/copied (data_map
 attribute for __reduce__)

---
 returnn/datasets/meta.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 7ff8a95..f3be217 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -970,6 +970,7 @@ class CombinedDataset(CachedDataset2):
         super(CombinedDataset, self).__init__(**kwargs)
         assert self.shuffle_frames_of_nseqs == 0  # not implemented. anyway only for non-recurrent nets
 
+        self.data_map = data_map
         self.dataset_keys = set([m[0] for m in data_map.keys()])  # type: typing.Set[str]
         self.dataset_idx2key_map = dict(enumerate(sorted(self.dataset_keys)))  # idx -> dataset-key
         self.data_keys = set(data_map.values())  # type: typing.Set[str]
-- 
2.43.0


From 005d318bdaa2002a85334301443f82e749021cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 05/67] fix: StaticDataset can be pickled/copied (remap
 input_dim/output_dim in __reduce__)

---
 returnn/datasets/generating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..244789f 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1044,6 +1044,8 @@ class StaticDataset(CachedDataset2):
     Provide all the data as a list of dict of numpy arrays.
     """
 
+    _getnewargs_remap = {**CachedDataset2._getnewargs_remap, "input_dim": "num_inputs", "output_dim": "num_outputs"}
+
     @classmethod
     def copy_from_dataset(cls, dataset, start_seq_idx=0, max_seqs=None):
         """
-- 
2.43.0


From b6aa560005361c8bf559daeff6386828c2b3b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 06/67] fix: PostprocessingDataset with map_seq can be
 pickled/copied

---
 returnn/datasets/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..eac1ac2 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -140,8 +140,8 @@ class PostprocessingDataset(CachedDataset2):
         self._map_seq = map_seq
         self._map_seq_stream = map_seq_stream
         if map_seq_stream_preserves_num_seqs is None and map_seq_stream is not None:
-            map_seq_stream_preserves_num_seqs = getattr(map_seq_stream, "preserves_num_seqs", None)
-        self._map_seq_stream_preserves_num_seqs = map_seq_stream_preserves_num_seqs or False
+            map_seq_stream_preserves_num_seqs = getattr(map_seq_stream, "preserves_num_seqs", None) or False
+        self._map_seq_stream_preserves_num_seqs = map_seq_stream_preserves_num_seqs
         self._map_outputs = map_outputs
         self._rng = RandomState(self._get_random_seed_for_epoch(0))
         self._seq_list_for_validation: Optional[List[str]] = None
-- 
2.43.0


From 70a2ce77a9e6695f31ed20e3befe4d7fa6d47117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 07/67] fix: CachedDataset2._load_seqs does not try to load
 seqs beyond num_seqs, as documented

---
 returnn/datasets/cached2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/cached2.py b/returnn/datasets/cached2.py
index ec2a40d..185052a 100644
--- a/returnn/datasets/cached2.py
+++ b/returnn/datasets/cached2.py
@@ -119,6 +119,8 @@ class CachedDataset2(Dataset):
             self.expected_load_seq_start = start
         if self.added_data:
             start = max(self.added_data[-1].seq_idx + 1, start)
+        if self._num_seqs is not None:
+            end = min(end, self._num_seqs)  # see docstring, not all _collect_single_seq check this
         seqs = [self._collect_single_seq(seq_idx=seq_idx) for seq_idx in range(start, end)]
         seqs = list(filter(None, seqs))  # We might not know the num seqs in advance.
         self._num_timesteps_accumulated += sum([seq.num_frames for seq in seqs])
-- 
2.43.0


From 54cf5283ed4dbad2f63d54211525e387deb77fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 08/67] fix: ConcatDataset/CombinedDataset.init_seq_order after
 unpickling inits the order even for the same epoch

---
 returnn/datasets/meta.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index f3be217..52a087a 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -787,7 +787,11 @@ class ConcatDataset(CachedDataset2):
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
         need_reinit = (
-            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+            self.epoch is None
+            or self.epoch != epoch
+            or self.dataset_seq_idx_offsets is None
+            or self.expected_load_seq_start > 0
+            or bool(self.added_data)
         )
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
@@ -1041,7 +1045,11 @@ class CombinedDataset(CachedDataset2):
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
         need_reinit = (
-            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+            self.epoch is None
+            or self.epoch != epoch
+            or self.dataset_sorted_seq_idx_list is None
+            or self.expected_load_seq_start > 0
+            or bool(self.added_data)
         )
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
-- 
2.43.0


From 253bcd6eeaebe748bef660555270b94f6a79c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 09/67] fix: TextDictDataset loads the data also when
 initialized with a predefined seq_order

---
 returnn/datasets/text_dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/text_dict.py b/returnn/datasets/text_dict.py
index 5799232..efda1e7 100644
--- a/returnn/datasets/text_dict.py
+++ b/returnn/datasets/text_dict.py
@@ -149,6 +149,7 @@ class TextDictDataset(CachedDataset2):
             raise ValueError(f"invalid item_format {self.item_format!r}")
 
         if seq_order is not None:
+            self._load()
             self._seq_order = seq_order
         elif seq_list is not None:
             raise NotImplementedError(f"{self}: seq_list not supported yet")
-- 
2.43.0


From da22beb7da8b9c96742110712ce897b55da90cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:40 +0000
Subject: [PATCH 10/67] fix: Dataset.get_complete_frac when neither num_seqs
 nor an estimate is available

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 750be1c..ff99812 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -973,7 +973,7 @@ class Dataset:
             except Exception:  # also not always available
                 num_seqs = None  # ignore
 
-        if math.isinf(num_seqs):
+        if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
                 # cannot compute meaningful complete_frac for infinite num_seqs
                 return None
-- 
2.43.0


From 92bb78ee8c564a55db3feb0c2258f9efdaa59f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:31 +0000
Subject: [PATCH 11/67] fix: chunking with a data key of len <= 1 yields all
 chunks of the other keys, not only the first one

---
 returnn/datasets/basic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index ff99812..70400ab 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1227,7 +1227,11 @@ class Dataset:
                         chunk_end.value = None
                     yield s, chunk_start, chunk_end
                     t += chunk_step
-                    if any([length[key] - t[key] <= self.min_chunk_size[key] for key in length.keys()]):
+                    if any(
+                        length[key] - t[key] <= self.min_chunk_size[key]
+                        for key in length.keys()
+                        if key not in keys_with_full_seqs
+                    ):
                         break
             s += 1
 
-- 
2.43.0


From ed31891a16c401a3c3e77ced6f58e12d048123a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:52 +0000
Subject: [PATCH 12/67] fix: ReturnnDataset*MapDataPipe constructors (__int__
 typo)

---
 returnn/torch/data/returnn_dataset_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/data/returnn_dataset_wrapper.py b/returnn/torch/data/returnn_dataset_wrapper.py
index ae70ec7..f58219d 100644
--- a/returnn/torch/data/returnn_dataset_wrapper.py
+++ b/returnn/torch/data/returnn_dataset_wrapper.py
@@ -146,7 +146,7 @@ class ReturnnDatasetPerEpochMapDataPipe(torch.utils.data.MapDataPipe):
     Converts a RETURNN dataset into a PyTorch map-style Dataset.
     """
 
-    def __int__(self, returnn_dataset: ReturnnDataset, *, reset_callback: Optional[ResetCallbackT] = None):
+    def __init__(self, returnn_dataset: ReturnnDataset, *, reset_callback: Optional[ResetCallbackT] = None):
         """
         :param returnn_dataset: dataset to be wrapped
         :param reset_callback: callback function to be called when the dataset is reset, e.g. to init the epoch.
@@ -190,7 +190,7 @@ class ReturnnDatasetFullMapDataPipe(torch.utils.data.MapDataPipe):
     Sorting/shuffling is intended to be done in the further PyTorch data pipeline.
     """
 
-    def __int__(self, returnn_dataset: ReturnnDataset):
+    def __init__(self, returnn_dataset: ReturnnDataset):
         """
         :param returnn_dataset: dataset to be wrapped
         """
-- 
2.43.0


From ae959771376f5c4263814e20629240b30d031408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:01 +0000
Subject: [PATCH 13/67] fix: Dataset.get_complete_frac does not fail when the
 estimated num_seqs is too low

---
 returnn/datasets/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 70400ab..536e0b5 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -960,12 +960,14 @@ class Dataset:
             for any dynamic learning rate scheduling.
             As ``sorted_seq_idx`` is monotonic, the return value is also guaranteed to be monotonic.
         """
+        is_estimate = False
         # noinspection PyBroadException
         try:
             num_seqs = self.num_seqs
         except Exception:  # num_seqs not always available
             if allow_only_lr_suitable:
                 return None
+            is_estimate = True
 
             # noinspection PyBroadException
             try:
@@ -980,8 +982,9 @@ class Dataset:
             else:
                 num_seqs = None
 
+        # (The estimate can be too low.)
         assert (
-            num_seqs is None or 0 <= sorted_seq_idx < num_seqs
+            num_seqs is None or is_estimate or 0 <= sorted_seq_idx < num_seqs
         ), f"{self}: invalid seq indices: 0 <= seq_idx ({sorted_seq_idx}) < num_seqs ({num_seqs}) violated"
         return self.generic_complete_frac(sorted_seq_idx, num_seqs)
 
-- 
2.43.0


From 10defbdd0a165b747efc14692707508c1f055871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:09 +0000
Subject: [PATCH 14/67] fix: LmDataset with error_on_invalid_seq=False does not
 know num_seqs in advance, as invalid seqs are skipped

---
 returnn/datasets/lm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..da05267 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -500,7 +500,10 @@ class LmDataset(CachedDataset2):
                 num_seqs=len(self._orths_offsets_and_lens),
                 get_seq_len=lambda i: self._orths_offsets_and_lens[i][2],
             )
-        self._num_seqs = len(self.seq_order)
+        if self.error_on_invalid_seq or self.orth_vocab is not None or len(self.seq_order) == 0:
+            self._num_seqs = len(self.seq_order)
+        else:
+            self._num_seqs = None  # unknown, invalid seqs are skipped
         self.next_orth_idx = 0
         self.next_seq_idx = 0
         self.num_skipped = 0
-- 
2.43.0


From 30d14d6299a4b1d680ed18a8a6860cbc167ec107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:18 +0000
Subject: [PATCH 15/67] fix: CachedDataset.init_seq_order with full cache
 re-inits when the order contains other seqs than the cached ones

---
 returnn/datasets/cached.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/cached.py b/returnn/datasets/cached.py
index f095525..d8f955d 100644
--- a/returnn/datasets/cached.py
+++ b/returnn/datasets/cached.py
@@ -112,6 +112,7 @@ class CachedDataset(Dataset):
         if (
             self.cache_byte_size_limit_at_start == 0
             or self.num_seqs_cached_at_start != len(seq_index)
+            or sorted(seq_index) != sorted(self._seq_index)  # other seqs, e.g. next partition
             or not self.start_cache_initialized
         ):
             self._seq_index = seq_index
-- 
2.43.0


From 7ea7b9b0d34919384caca7eed6acc2d6578eea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:30 +0000
Subject: [PATCH 16/67] fix: FileCache.get_file, retry after no-space-left
 error

When a retry succeeded, the error of the earlier try was still raised.
Also, the left-over temp copy file of the failed try
triggered the assertion about a too recent temp copy file in the next try.
---
 returnn/util/file_cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..be0c03d 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
@@ -354,7 +355,13 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                except BaseException:
+                    # E.g. no space left. Free the space, and do not leave it over for the next try.
+                    if os.path.exists(dst_tmp_filename):
+                        os.remove(dst_tmp_filename)
+                    raise
                 os.rename(dst_tmp_filename, dst_filename)
 
     @staticmethod
-- 
2.43.0


From 08604b17f8b69283ef210fc05e6b52a780d47559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:30 +0000
Subject: [PATCH 17/67] fix: FileCache touch files thread, do not stop when
 some file was removed

The thread works on a copy of the files,
so e.g. the lock file can be removed before the thread gets to it.
When the thread stops, all other used files are not protected anymore.
---
 returnn/util/file_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index be0c03d..1b7ea96 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -485,6 +485,10 @@ class _TouchFilesThread(Thread):
             for filename in all_files:
                 try:
                     os.utime(filename, None)
+                except FileNotFoundError as exc:
+                    # Maybe it was released and removed in the meantime, e.g. the lock file.
+                    # We must go on in any case to keep the other files.
+                    print(f"FileCache: failed updating mtime of {filename}: {exc}")
                 except Exception as exc:
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
                     raise
-- 
2.43.0


From 932742156edeaee359006038746468353263ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:58 +0000
Subject: [PATCH 18/67] fix: cleanup_old_models with NaN scores

NaN broke the sorting of the scores,
such that the best models could get deleted.
---
 returnn/engine/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index df75cce..f513985 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -5,6 +5,7 @@ Provides :class:`EngineBase`.
 from __future__ import annotations
 
 from typing import Optional, Set
+import math
 import os
 import sys
 
@@ -378,8 +379,13 @@ class EngineBase:
         assert score_keys
         score_keys = sorted(score_keys)
         score_values = {key: [] for key in score_keys}
+        scores_by_epoch = {}
         for epoch in epochs:
-            epoch_scores = lr_control.epoch_data[epoch].error
+            # NaN would break the sorting below. It means that the epoch is bad, so handle it as the worst possible score.
+            epoch_scores = {
+                key: float("inf") if math.isnan(v) else v for (key, v) in lr_control.epoch_data[epoch].error.items()
+            }
+            scores_by_epoch[epoch] = epoch_scores
             for key in epoch_scores.keys():
                 score_values[key].append(epoch_scores[key])
         for key in list(score_keys):
@@ -399,7 +405,7 @@ class EngineBase:
         worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}
         for key in score_keys:
             scores = sorted(
-                [(lr_control.epoch_data[epoch].error.get(key, worst_score_values[key]), epoch) for epoch in epochs]
+                [(scores_by_epoch[epoch].get(key, worst_score_values[key]), epoch) for epoch in epochs]
             )
             scores = scores[:keep_best_n]
             keep_epochs.update([v[1] for v in scores])
-- 
2.43.0


From 7acd4dde4d5cc5340b8b5ba9fd6248eec474a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:02 +0000
Subject: [PATCH 19/67] fix: NativeCodeCompiler, concurrent processes never see
 an incomplete lib

When waiting for another process which compiles the same code,
do not compile it again, as the other process might already use the lib.
Also write the lib and the info file atomically.
---
 returnn/util/native_code_compiler.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..3d121a2 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -195,8 +195,11 @@ class NativeCodeCompiler:
 
     def _save_info(self):
         filename = self._info_filename
-        with open(filename, "w") as f:
+        # Other processes might read this concurrently, without lock, so make it atomic.
+        tmp_filename = filename + ".tmp"
+        with open(tmp_filename, "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.replace(tmp_filename, filename)
 
     def _need_recompile(self):
         """
@@ -244,7 +247,10 @@ class NativeCodeCompiler:
             if os.path.exists(self._mod_path):
                 self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
-            self._maybe_compile_inner()
+            # Check again. We might have waited for another process, which has compiled it in the meantime,
+            # and which might be using the lib already.
+            if self._need_recompile():
+                self._maybe_compile_inner()
 
     def _get_compiler_bin(self):
         """
@@ -299,7 +305,10 @@ class NativeCodeCompiler:
         common_opts += ["-D_GLIBCXX_USE_CXX11_ABI=%i" % (1 if self.use_cxx11_abi else 0)]
         common_opts += ["-D%s=%s" % item for item in sorted(self.c_macro_defines.items())]
         common_opts += ["-g"]
-        opts = common_opts + [self._c_filename, "-o", self._so_filename]
+        # Other processes might check or load the lib concurrently, without lock,
+        # and we might get killed while compiling, so make it atomic.
+        tmp_so_filename = self._so_filename + ".tmp"
+        opts = common_opts + [self._c_filename, "-o", tmp_so_filename]
         opts += list(map(self._transform_ld_flag, self.ld_flags))
         cmd_bin = self._get_compiler_bin()
         cmd_args = [cmd_bin] + opts
@@ -321,7 +330,8 @@ class NativeCodeCompiler:
                 print("Your GCC version might be too new. This is a problem with some nvcc versions.")
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
-        assert os.path.exists(self._so_filename)
+        assert os.path.exists(tmp_so_filename)
+        os.replace(tmp_so_filename, self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
             if self.verbose:
                 print("%s: write compile log to: %s" % (self.__class__.__name__, f.name))
-- 
2.43.0


From 3db597008322e3b4e5e63746305a6260b977c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:47 +0000
Subject: [PATCH 20/67] fix: NativeCodeCompiler cleanup with concurrent
 processes, keep recently used libs

Another process might remove the dir concurrently, or might be about to compile there.
Also, the info file is touched when the lib is used, thus use its mtime.
---
 returnn/util/native_code_compiler.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 3d121a2..10ac2a4 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -124,20 +124,22 @@ class NativeCodeCompiler:
                 continue
             lock.maybe_remove_old_lockfile()
             info_path = "%s/info.py" % full_dir_path
-            if not os.path.exists(info_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing info.py")
-                continue
             so_path = "%s/%s.so" % (full_dir_path, self.base_name)
-            if not os.path.exists(so_path):
-                self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
-                continue
-            dt = time.time() - os.path.getmtime(so_path)
+            try:
+                if not os.path.exists(info_path) or not os.path.exists(so_path):
+                    if time.time() - os.path.getmtime(full_dir_path) < lock.lock_timeout:
+                        continue  # maybe another process is about to compile there
+                    self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing info.py or so")
+                    continue
+                # Note: See _maybe_compile: The info file is touched each time the lib is used.
+                dt = time.time() - max(os.path.getmtime(so_path), os.path.getmtime(info_path))
+            except FileNotFoundError:
+                continue  # another process has removed it in the meantime
             if dt > cleanup_time_limit_secs:
                 self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
 
     def _cleanup_old_path(self, p, reason):
         print("%s delete old, %s: %s" % (self.__class__.__name__, reason, p))
-        assert os.path.exists(p)
         import shutil
 
         try:
-- 
2.43.0


From 276e150a6957d51a04b5020ef5f2d394bcbf3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:21 +0000
Subject: [PATCH 21/67] fix: torch reduce_max/reduce_min over multiple axes

---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..53fca16 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1505,6 +1505,8 @@ class TorchBackend(Backend[torch.Tensor]):
                 # result is a tuple (values, indices). https://pytorch.org/docs/stable/generated/torch.max.html
                 raw_result, _ = raw_result
         else:
+            if mode in ["max", "min"]:
+                func = {"max": torch.amax, "min": torch.amin}[mode]  # torch.max/min do not support multiple dims
             raw_result = func(source.raw_tensor, dim=raw_dims)
         if correction_factor is not None:
             raw_result *= (
-- 
2.43.0


From 57231a715c28d65535865d5e08775e5b57a3ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:21 +0000
Subject: [PATCH 22/67] fix: reduce_logmeanexp with static axis

---
 returnn/frontend/reduce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 94fdca5..1b37d42 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -117,7 +117,10 @@ def reduce_logmeanexp(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use
     :return: tensor with axis removed
     """
     s = reduce_logsumexp(source, axis=axis, use_mask=use_mask)
-    return s - rf.safe_log(rf.cast(rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device), s.dtype))
+    n = rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device)
+    if not isinstance(n, Tensor):  # all dims are static
+        n = rf.constant(n, dims=(), dtype=s.dtype, device=s.device)
+    return s - rf.safe_log(rf.cast(n, s.dtype))
 
 
 def reduce_any(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use_mask: bool = True) -> Tensor[T]:
-- 
2.43.0


From 402cb34967715b2f720f52075b22dc0ada15af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:49 +0000
Subject: [PATCH 23/67] fix: torch conv with padding=same and dilation

---
 returnn/torch/frontend/_backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 53fca16..927cdd0 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1911,11 +1911,11 @@ class TorchBackend(Backend[torch.Tensor]):
                 [-1, in_dim.get_dim_value()] + [d.get_dim_value() for d in in_spatial_dims],
             )
         use_striding = strides and (strides > 1 if isinstance(strides, int) else any(s > 1 for s in strides))
+        dilations = dilation_rate if isinstance(dilation_rate, (list, tuple)) else [dilation_rate or 1] * len(filter_size)
         if padding == "same" and not use_striding and all(d.dimension % 2 == 1 for d in filter_size):
-            if all(filter_size[0].dimension == d.dimension for d in filter_size):  # all same
-                padding = (filter_size[0].dimension - 1) // 2
-            else:
-                padding = tuple(d.dimension // 2 for d in filter_size)
+            padding = tuple((d.dimension // 2) * dilation for d, dilation in zip(filter_size, dilations))
+            if all(padding[0] == p for p in padding):  # all same
+                padding = padding[0]
         if padding == "same" and (use_striding or torch.onnx.is_in_onnx_export()):
             # padding='same' is not supported for strided convolutions.
             # Moreover, padding specified as a string isn't supported for ONNX exporting as of 2023/05/19.
@@ -1952,7 +1952,8 @@ class TorchBackend(Backend[torch.Tensor]):
                 #                = in_len + s.dimension - 1 - (in_len - 1) % stride
                 # Now, the amount of padding which actually matters is:
                 # pad = in_len_covered - in_len = s.dimension - 1 - (in_len - 1) % stride.
-                pad = s.dimension - 1 - (src_raw.shape[2 + i] - 1) % stride_
+                # (With dilation, the filter covers (s.dimension - 1) * dilation + 1 frames.)
+                pad = (s.dimension - 1) * dilations[i] - (src_raw.shape[2 + i] - 1) % stride_
                 pad_left = pad // 2
                 pad_right = pad - pad_left
                 pads.extend([pad_left, pad_right])
-- 
2.43.0


From cb21166f6a18c9a2715c0c50a4c261f732edc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:49 +0000
Subject: [PATCH 24/67] fix: torch pool with padding=same, even pool size and
 stride 1

---
 returnn/torch/frontend/_backend.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 927cdd0..3ef0192 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -2038,14 +2038,23 @@ class TorchBackend(Backend[torch.Tensor]):
             [-1, batch_dims[-1].get_dim_value() if batch_dims else 1] + [d.get_dim_value() for d in in_spatial_dims],
         )
         assert isinstance(strides, (list, tuple)) and len(strides) == len(in_spatial_dims) == len(pool_size)
+        ones_padded: Optional[torch.Tensor] = None
         if isinstance(padding, str) and padding.lower() == "same":
             # padding='same' is not quite the same as ceil_mode=True, so we explicitly pad here.
             padding = []
+            pad_right_extra = []
             for i, s in enumerate(pool_size):
                 # See comment in conv.
                 # I'm a bit unsure here... https://github.com/pytorch/pytorch/issues/148123
                 pad = s - 1 - (src_raw.shape[2 + i] - 1) % strides[i]
                 padding.append(pad // 2)
+                # ceil_mode covers one more frame of padding on the right, but only with striding.
+                pad_right_extra.append(pad % 2 if strides[i] == 1 else 0)
+            if any(pad_right_extra):
+                pads = [p for p_ in reversed(pad_right_extra) for p in (0, p_)]
+                if mode == "avg":  # do not count the padding
+                    ones_padded = torch.nn.functional.pad(torch.ones_like(src_raw[:1, :1]), pads)
+                src_raw = torch.nn.functional.pad(src_raw, pads, value=float("-inf") if mode == "max" else 0)
             ceil_mode = True
         elif isinstance(padding, str) and padding.lower() == "valid":
             padding = 0
@@ -2066,6 +2075,10 @@ class TorchBackend(Backend[torch.Tensor]):
         if mode == "avg":
             kwargs["count_include_pad"] = False
         out_raw = func(src_raw, kernel_size=pool_size, stride=strides, ceil_mode=ceil_mode, padding=padding, **kwargs)
+        if ones_padded is not None:
+            out_raw = out_raw / func(
+                ones_padded, kernel_size=pool_size, stride=strides, ceil_mode=ceil_mode, padding=padding, **kwargs
+            )
         out = Tensor("pool", dims=batch_dims + list(out_spatial_dims), dtype=source.dtype)
         out.raw_tensor = torch.reshape(out_raw, [d.get_dim_value() for d in out.dims])
         if source.feature_dim and source.feature_dim in out.dims:
-- 
2.43.0


From ec1685474a88528153dbbeeaca5ce93c41e9ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 25/67] fix: pool with mode avg and masking, do not count
 masked frames

---
 returnn/frontend/conv.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/returnn/frontend/conv.py b/returnn/frontend/conv.py
index a81cb05..f35398c 100644
--- a/returnn/frontend/conv.py
+++ b/returnn/frontend/conv.py
@@ -509,6 +509,24 @@ def pool(
     else:
         use_mask = False
 
+    if use_mask and mode == "avg" and padding != "valid":
+        # At the seq end, do not count the masked frames, consistent with the padding.
+        weights = rf.sequence_mask(in_spatial_dims, device=source.device)
+        weights = rf.expand_dims(rf.cast(weights, source.dtype), [d for d in in_spatial_dims if d not in weights.dims])
+        weights, out_spatial_dims = pool(
+            weights,
+            mode="avg",
+            pool_size=pool_size,
+            padding=padding,
+            dilation_rate=dilation_rate,
+            strides=strides,
+            in_spatial_dims=in_spatial_dims,
+            out_spatial_dims=out_spatial_dims,
+            use_mask=False,
+        )
+    else:
+        weights = None
+
     if padding == "same" and _any_is_non_default(strides, default=1) and _should_use_consistent_same_padding():
         source, in_spatial_dims, padding = _consistent_same_padding(
             source,
@@ -533,6 +551,8 @@ def pool(
         # We masked with -inf for max-pooling to get correct pooling at the boundaries.
         # However, the resulting tensor might have -inf in it, and it is better to mask it out.
         out = out.copy_masked(0, dims=out_spatial_dims)
+    if weights is not None:
+        out = rf.where(weights > 0.0, out / rf.maximum(weights, 1e-8), 0.0)
     return out, out_spatial_dims
 
 
-- 
2.43.0


From 5d1987ffd2b591a59147ac74730be07c9b359b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 26/67] fix: moments with use_mask=False, mean

---
 returnn/frontend/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/normalization.py b/returnn/frontend/normalization.py
index 16bb70a..8df9836 100644
--- a/returnn/frontend/normalization.py
+++ b/returnn/frontend/normalization.py
@@ -33,7 +33,7 @@ def moments(
         while in most other frameworks, the default is ``correction=0``, which is the biased variance estimation.
     :return: tuple (mean, variance). it has the same shape as the input with the axis removed
     """
-    mean = rf.reduce_mean(x, axis=axis)
+    mean = rf.reduce_mean(x, axis=axis, use_mask=use_mask)
     # stop_gradient does not change the gradient here
     variance = rf.reduce_mean(rf.squared_difference(x, rf.stop_gradient(mean)), axis=axis, use_mask=use_mask)
     if isinstance(correction, Tensor) or correction != 0:
-- 
2.43.0


From 081cbf0304ee3e250b2d764d6418430501a030ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 27/67] fix: RunningMean with input with other dims to be
 reduced

---
 returnn/frontend/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 1b37d42..4023592 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -250,7 +250,7 @@ class RunningMean(rf.Module):
         """
 
         def _update_running_stats():
-            assert all(d in self.shape for d in x.dims)
+            assert all(d in x.dims for d in self.shape)
             x_ = rf.reduce_mean(x, axis=[d for d in x.dims if d not in self.shape])
             self.mean.assign_add(self.alpha * (x_ - self.mean))
 
-- 
2.43.0


From 11dabd73e92cd2193c0cf04df680009ce635abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:49 +0000
Subject: [PATCH 28/67] fix: scatter with fill_value and masked frames
 (logmeanexp, argmax), int source

---
 returnn/frontend/array_.py | 43 ++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 32f0a68..a3b9a9b 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -830,33 +830,44 @@ def scatter(
     if not out_dim:
         assert isinstance(indices, Tensor) and indices.sparse_dim
         out_dim = indices.sparse_dim
+    if mode == "sum":
+        neutral_value = 0
+    elif mode == "max":
+        neutral_value = numpy.iinfo(source.dtype).min if "int" in source.dtype else float("-inf")
+    elif mode == "min":
+        neutral_value = numpy.iinfo(source.dtype).max if "int" in source.dtype else float("inf")
+    else:
+        raise ValueError(f"scatter: invalid mode {mode!r}")
     if fill_value is None:
-        if mode == "sum":
-            fill_value = 0
-        elif mode == "max":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).min
-            else:
-                fill_value = float("-inf")
-        elif mode == "min":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).max
-            else:
-                fill_value = float("inf")
-        else:
-            raise ValueError(f"scatter: invalid mode {mode!r}")
+        fill_value = neutral_value
     indices_dim = indices_dim if isinstance(indices_dim, (list, tuple)) else [indices_dim]
     if any(dim.need_masking() for dim in indices_dim):
         if use_mask is None:
             use_mask = rf.use_mask_default(default=True, default_false_for_behavior_version_up_to=22)
         if use_mask:
-            source = source.copy_masked(fill_value, dims=indices_dim)
+            source = source.copy_masked(neutral_value, dims=indices_dim)
     else:
         use_mask = False
+    touched = None
+    if use_mask and fill_value != neutral_value:
+        # The masked frames also end up somewhere in the output. There, we also want the fill value.
+        touched = rf.ones(indices.dims, dtype="int32", device=source.device)
+        touched = touched.copy_masked(0, dims=indices_dim)
+        # noinspection PyProtectedMember
+        touched = source._raw_backend.scatter(
+            touched, indices=indices, indices_dim=indices_dim, mode="max", fill_value=0, out_dim=out_dim
+        )
     # noinspection PyProtectedMember
     out = source._raw_backend.scatter(
-        source, indices=indices, indices_dim=indices_dim, mode=mode, fill_value=fill_value, out_dim=out_dim
+        source,
+        indices=indices,
+        indices_dim=indices_dim,
+        mode=mode,
+        fill_value=fill_value if touched is None else neutral_value,
+        out_dim=out_dim,
     )
+    if touched is not None:
+        out = rf.where(touched > 0, out, fill_value)
     if use_mask and mode != "sum":
         # Make sure we don't leave any infinities in the output.
         out = out.copy_masked(0, dims=[out_dim])
-- 
2.43.0


From 097e561ca7a499757c40646d3020453855f3df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:08 +0000
Subject: [PATCH 29/67] fix: torch pad with non-scalar value, arbitrary
 left/right padding

---
 returnn/torch/frontend/_backend.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 3ef0192..162c4c5 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -494,11 +494,15 @@ class TorchBackend(Backend[torch.Tensor]):
             assert isinstance(value, Tensor) and value.dims  # non-scalar
             assert all(dim in source.dims and dim not in axes for dim in value.dims)
             assert len(axes) == 1  # not implemented otherwise currently...
-            ext_dim = Dim(1, name="ext")
-            value_ext = rf.expand_dim(value, ext_dim)
-            out = TorchBackend.concat(
-                (source, axes[0]), (value_ext, ext_dim), allow_broadcast=True, out_dim=out_dims[0]
-            )
+            axis_int = source.get_axis_from_description(axes[0], allow_int=False)
+            out = source.copy_template_replace_dim_tag(axis=axis_int, new_dim_tag=out_dims[0])
+            value_raw = value.copy_compatible_to_dims_raw(source.dims).to(source.raw_tensor.dtype)
+            parts = [source.raw_tensor]
+            for amount, pos in zip(raw_pad[-2:], (0, 2)):  # left, right
+                shape = list(source.raw_tensor.shape)
+                shape[axis_int] = int(amount)
+                parts.insert(pos, value_raw.expand(shape))
+            out.raw_tensor = torch.cat(parts, dim=axis_int)
         if any(dim.need_masking() for dim in out_dims) and handle_dynamic_dims:
             if all(right == 0 for right in raw_pad[1::2]) and mode != "circular":
                 pass  # no masking needed
-- 
2.43.0


From 212eb0d03f28968bb1737075f8409594df48d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:08 +0000
Subject: [PATCH 30/67] fix: torch gather with clip_to_valid with empty seqs
 (reverse_sequence)

---
 returnn/torch/frontend/_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 162c4c5..c03591c 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -996,7 +996,10 @@ class TorchBackend(Backend[torch.Tensor]):
         if clip_to_valid:
             if axis.dyn_size_ext is not None:
                 indices = rf.clip_by_value(
-                    indices, 0, axis.get_dyn_size_ext_for_device(indices.device) - 1, allow_broadcast_all_sources=True
+                    indices,
+                    0,
+                    rf.maximum(axis.get_dyn_size_ext_for_device(indices.device) - 1, 0),
+                    allow_broadcast_all_sources=True,
                 )
             else:
                 indices = indices.copy()
-- 
2.43.0


From c7212dc0a632705b9d0ba454193b6eb4a2cc21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:08 +0000
Subject: [PATCH 31/67] fix: torch slice with step, negative start or end

---
 returnn/torch/frontend/_backend.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index c03591c..78891a3 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1180,9 +1180,20 @@ class TorchBackend(Backend[torch.Tensor]):
             if isinstance(end, Tensor):
                 assert end.dims == ()
                 end = end.raw_tensor
+            axis_len = source.raw_tensor.shape[axis_int]
+            if start < 0:
+                start += axis_len
             if end is None:
-                end = axis.get_dim_value()
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+                end = axis_len
+            elif end < 0:
+                end += axis_len
+            out_raw = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if isinstance(step, Tensor):
+                assert step.dims == ()
+                step = int(step.raw_tensor)
+            if step is not None and step != 1:
+                out_raw = out_raw[(slice(None),) * axis_int + (slice(None, None, step),)]
+            out.raw_tensor = out_raw
         return out
 
     @staticmethod
-- 
2.43.0


From 6aa128338e8191732455718e8c9c0e789f8d950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:08 +0000
Subject: [PATCH 32/67] fix: torch top_k over multiple axes with dynamic axis

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 78891a3..10cfef7 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1585,8 +1585,8 @@ class TorchBackend(Backend[torch.Tensor]):
             indices_out = []
             for i, a in reversed(list(enumerate(axis))):
                 assert isinstance(a, Dim)
-                indices_out_raw = indices_raw % a.dimension
-                indices_raw = indices_raw // a.dimension
+                indices_out_raw = indices_raw % a.get_dim_value()
+                indices_raw = indices_raw // a.get_dim_value()
                 indices = values.copy_template(name=f"top_k_indices_{a.name or i}")
                 indices.dtype = TorchBackend.get_dtype_name_raw(indices_out_raw)
                 indices.sparse_dim = a
-- 
2.43.0


From 1653d55dcec2145f491329132d8e24ae431517ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:06 +0000
Subject: [PATCH 33/67] fix: relative_positional_encoding single step with
 ragged history

---
 returnn/frontend/attention.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index b0d4991..89ab4f3 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -942,7 +942,8 @@ def relative_positional_encoding(
         arg, feat_dim_ = rf.replace_dim(arg, in_dim=feat_dim_, out_dim=feat_dim)
         emb = rf.sin(arg)
         emb.verify_out_shape(
-            {out_spatial_dim, feat_dim} if out_spatial_dim != single_step_dim else {feat_dim},
+            # indices might have further dims (e.g. batch) in case of single step with ragged history
+            indices.dims_set | {feat_dim},
             allow_missing_implicit_dims=True,
         )
         emb.feature_dim = feat_dim
-- 
2.43.0


From 83abe824f53ae3aae83363466e1f15b1a813e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 34/67] fix: Dim, padded size of difference of dynamic dims and
 division by dynamic dim

---
 returnn/tensor/_dim_extra.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..419f8ad 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1262,10 +1262,20 @@ class _DimMixin:
             else:
                 raise TypeError(f"complete_dyn_size: _relu: unexpected type {type(a)}")
 
+        def _is_decreasing(i_: int, x_: Dim) -> bool:
+            """whether the max of the result might not be given by the max of this input"""
+            if kind == "mul" and x_.dimension is not None and x_.dimension < 0:
+                return True
+            if kind not in ("add", "mul") and i_ > 0 and x_.dimension is None:  # sub, div by dynamic dim
+                return True
+            x_op = x_.derived_from_op
+            return bool(x_op) and x_op.kind == "mul" and any((d.dimension or 0) < 0 for d in x_op.inputs)
+
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
         inputs = list(op.inputs)
         assert inputs
+        use_max_of_inputs = not any(_is_decreasing(i, x_dim) for i, x_dim in enumerate(inputs))
         for x_dim in inputs:
             x_dim: Dim
             if self.batch:
@@ -1274,7 +1284,7 @@ class _DimMixin:
             if x_dim.dyn_size_ext is None and x_dim.dimension is None:
                 return
             y = _bin_op(y, x_dim.dimension if x_dim.dimension is not None else x_dim.dyn_size_ext)
-            if not template_only and y.raw_tensor is not None:
+            if not template_only and y.raw_tensor is not None and use_max_of_inputs:
                 y_max_value = _bin_op(y_max_value, x_dim.get_dim_value_tensor())
         assert y is not None, f"op {op}?"
         if self.dyn_size_ext is not None:
-- 
2.43.0


From 6fd0f1069f6d5bffc0325f2226433e88a480aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 35/67] fix: Dim math cache, static dim op dynamic dim, no
 outdated sizes for the next batch

---
 returnn/tensor/_dim_extra.py | 58 ++++++++++++------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 419f8ad..5f4e724 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2090,9 +2090,7 @@ class _DimMixin:
         :return: self + other. note that this is not commutative, i.e. different from other + self.
         :rtype: Dim
         """
-        cache_key = ("add", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2108,9 +2106,7 @@ class _DimMixin:
         :return: other + self
         :rtype: Dim
         """
-        cache_key = ("add_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2133,9 +2129,7 @@ class _DimMixin:
         :return: self - other
         :rtype: Dim
         """
-        cache_key = ("sub", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2151,9 +2145,7 @@ class _DimMixin:
         :return: (-other) + self
         :rtype: Dim
         """
-        cache_key = ("sub_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2168,9 +2160,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2185,9 +2175,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2202,9 +2190,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("floordiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("floordiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2226,9 +2212,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2243,9 +2227,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2260,9 +2242,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2277,9 +2257,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2304,13 +2282,15 @@ class _DimMixin:
     def _cache_dim_math_get(
         self: Dim, op_kind: str, operand: Union[Dim, int]
     ) -> Tuple[_CacheDimMath, Tuple[str, Union[Dim, int]], Optional[Dim]]:
-        same_base = self.get_same_base()
+        owner, cache_key = self, (op_kind, operand)
+        if isinstance(operand, _d.Dim):
+            if operand.is_constant_static_dim():
+                cache_key = (op_kind, operand.dimension)
+            elif self.is_static() and not operand.is_static():
+                # The result depends on the operand, so it must be reset together with the operand (reset_raw).
+                owner, cache_key = operand, (op_kind + ":operand", self)
         # noinspection PyProtectedMember
-        extra = same_base._make_extra()
-        if isinstance(operand, _d.Dim) and operand.is_constant_static_dim():
-            operand = operand.dimension
-        cache = extra.cache_dim_math
-        cache_key = (op_kind, operand)
+        cache = owner.get_same_base()._make_extra().cache_dim_math
         return cache, cache_key, cache.get(cache_key, None)
 
     def __sis_state__(self):
-- 
2.43.0


From 593de7e9450e7c2124f830f2a2aed5e603ce6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 36/67] fix: Dim math, division of product with floor-divided
 factor

---
 returnn/tensor/_dim_extra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 5f4e724..b3c1f33 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2561,7 +2561,8 @@ class _OpMultTerm:
         if kind.endswith("div") and other == term:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
-        if term.derived_from_op and term.derived_from_op.kind == op_kind:
+        # (a // b) // c == a // (b * c), but this is not true if there are other factors, e.g. (2 * (a // b)) // c.
+        if len(self.terms) == 1 and term.derived_from_op and term.derived_from_op.kind == op_kind:
             return i
         return None
 
-- 
2.43.0


From 576dbf418d7d444ca21bcf92b2bacdadf9dbcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 37/67] fix: Dim math, no merging of terms with negative
 dynamic factor

---
 returnn/tensor/_dim_extra.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index b3c1f33..b6cc574 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2475,6 +2475,20 @@ class _OpMultTerm:
             return True
         return all(term.is_constant_static_dim() for term in self.terms)
 
+    def has_negative_dynamic_factor(self) -> bool:
+        """
+        :return: whether the factors, excluding the last one, are dynamic and negative.
+            As a dim on its own, this would not be possible, as sizes are never negative.
+        """
+
+        def _is_negative(d: Dim) -> bool:
+            if d.derived_from_op and d.derived_from_op.kind == "mul":
+                return any(_is_negative(d_) for d_ in d.derived_from_op.inputs)
+            return d.dimension is not None and d.dimension < 0
+
+        factors = self.terms[:-1]
+        return any(d.dimension is None for d in factors) and any(_is_negative(d) for d in factors)
+
     def copy(self) -> _OpMultTerm:
         """copy"""
         return _OpMultTerm(list(self.terms))
@@ -2782,7 +2796,13 @@ class _OpLinearTerm:
                     _make_constant_static_dim(most_recent_term.dimension + term.dimension, kind=other.kind)
                 )
                 return
-            if most_recent_term.terms and term.terms and most_recent_term.terms[-1] == term.terms[-1]:
+            if (
+                most_recent_term.terms
+                and term.terms
+                and most_recent_term.terms[-1] == term.terms[-1]
+                and not most_recent_term.has_negative_dynamic_factor()
+                and not term.has_negative_dynamic_factor()
+            ):
                 # Merge terms
                 a = _OpMultTerm.from_dim_factors(most_recent_term.terms[:-1]).as_dim()
                 b = _OpMultTerm.from_dim_factors(term.terms[:-1]).as_dim()
-- 
2.43.0


From 40a6ad86627447108e93fc26cb834a48ddacb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 38/67] fix: torch scaled_gradient_ext, scale/shift tensors
 aligned to the dims of the source

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 10cfef7..460ce13 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -240,8 +240,8 @@ class TorchBackend(Backend[torch.Tensor]):
         out = x.copy()
         out.raw_tensor = scaled_gradient_ext(
             out.raw_tensor,
-            scale=scale.raw_tensor if isinstance(scale, Tensor) else scale,
-            shift=shift.raw_tensor if isinstance(shift, Tensor) else shift,
+            scale=scale.copy_compatible_to_dims_raw(x.dims) if isinstance(scale, Tensor) else scale,
+            shift=shift.copy_compatible_to_dims_raw(x.dims) if isinstance(shift, Tensor) else shift,
             scale_shift_by_sum_over_axis=(
                 x.get_axis_from_description(scale_shift_by_sum_over_axis, allow_int=False)
                 if scale_shift_by_sum_over_axis is not None
-- 
2.43.0


From 4a5f24fe7200569f40fb09667851ac4963e1e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 39/67] fix: torch softmax_cross_entropy_with_logits with
 different dim orders

---
 returnn/torch/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 460ce13..991214a 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -646,8 +646,7 @@ class TorchBackend(Backend[torch.Tensor]):
             logits_dim_order = targets.dims
 
         # We need same order of axes as in target.
-        logits_axes_permutation = [logits_dim_order.index(dim) for dim in logits.dims]
-        logits = logits.copy_transpose(logits_axes_permutation)
+        logits = logits.copy_transpose(logits_dim_order)
 
         raw_cross_entropy = torch.nn.functional.cross_entropy(
             input=logits.raw_tensor, target=targets.raw_tensor, reduction="none"
-- 
2.43.0


From d2028ec966152b2a484ac48f296d1d6613e12474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:32 +0000
Subject: [PATCH 40/67] fix: torch updater, keep learning_rate_multiplier of
 the optimizer in all steps

---
 returnn/torch/updater.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..4acf55a 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -106,6 +106,7 @@ class Updater:
         self.config = config
         self.learning_rate = float(initial_learning_rate)
         self._effective_learning_rate = self.learning_rate
+        self._optimizer_learning_rate_multiplier = 1.0
         self.network = network
         self._device = device
         # Just set the very first step as initial values here.
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._optimizer_learning_rate_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -425,8 +426,8 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
-        opt_kwargs["lr"] = lr
+        self._optimizer_learning_rate_multiplier = opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        opt_kwargs["lr"] = lr * self._optimizer_learning_rate_multiplier
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
         optimizer = optim_class(params_or_param_groups, **opt_kwargs)
-- 
2.43.0


From d7b2210fe2202cd25349cb932f5b2721af5b653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:32 +0000
Subject: [PATCH 41/67] fix: torch updater, weight_decay_custom_include_check
 gets the full param name

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 4acf55a..7d288e8 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -538,7 +538,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From 6cc4911614bf342c167e6dfa2d3c09fb0400d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:59 +0000
Subject: [PATCH 42/67] fix: torch forward auto split batch on OOM, scalar
 entries of the batch

---
 returnn/torch/data/extern_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..35f7d9c 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -132,7 +132,8 @@ def raw_dict_split_batch(
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
         offset = 0
         for i, split_size in enumerate(splits):
-            res[i][k] = v[offset : offset + split_size]
+            # Scalars (e.g. complete_frac, num_seqs) are not per sequence.
+            res[i][k] = v[offset : offset + split_size] if v.ndim > 0 else v
             offset += split_size
     for res_ in res:
         res_: Dict[str, Union[torch.Tensor, numpy.ndarray]]
-- 
2.43.0


From 7df6897f48aa2eceb103b3a7a03ad99b7ee7c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:17 +0000
Subject: [PATCH 43/67] fix: SimpleHDFWriter extend_existing_file, seq lengths
 with multiple extra data streams

---
 returnn/datasets/hdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..ee0bbe2 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets/data" in self._file:
+            # All existing keys, as the data_key_idx for the seq_lengths depends on them.
+            for data_key, data in self._file["targets/data"].items():
+                self._datasets[data_key] = data
+                self._extra_num_time_steps[data_key] = data.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
@@ -1185,7 +1191,7 @@ class SimpleHDFWriter:
         for data_key, (dim, ndim, dtype) in extra_type.items():
             assert data_key != "inputs"
             if data_key in self._prepared_extra:
-                return
+                continue
             if not self._prepared_extra and not self.extend_existing_file:
                 # For the first time, need to create the groups.
                 self._file.create_group("targets/data")
-- 
2.43.0


From a680be2bfc36455409bb6c39af29441b9d65e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:19 +0000
Subject: [PATCH 44/67] fix: ConcatDataset load_seqs over the end of a
 sub-dataset

---
 returnn/datasets/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 52a087a..7c27184 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -842,7 +842,10 @@ class ConcatDataset(CachedDataset2):
             dataset = self.datasets[dataset_idx]
             dataset_seq_idx_start = sub_start + self.dataset_seq_idx_offsets[dataset_idx]
             dataset_seq_idx_end = end + self.dataset_seq_idx_offsets[dataset_idx]
-            dataset.load_seqs(dataset_seq_idx_start, dataset_seq_idx_end)
+            dataset_load_end = dataset_seq_idx_end
+            while dataset_load_end > dataset_seq_idx_start and not dataset.is_less_than_num_seqs(dataset_load_end - 1):
+                dataset_load_end -= 1  # not all datasets allow to load behind the end
+            dataset.load_seqs(dataset_seq_idx_start, dataset_load_end)
             if dataset.is_less_than_num_seqs(dataset_seq_idx_end):
                 # We are still inside this dataset and have loaded everything.
                 # Thus we can stop now.
-- 
2.43.0


From 8cc1928fa01439a50c072aa04a2f1f84391138ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:25 +0000
Subject: [PATCH 45/67] fix: CombinedDataset initialize with sampling_sizes or
 with sub-datasets with unknown num seqs

---
 returnn/datasets/meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 7c27184..8f4345b 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1070,6 +1070,14 @@ class CombinedDataset(CachedDataset2):
         for dataset in self.datasets.values():
             dataset.init_seq_order(epoch=epoch)
 
+        if epoch is None:
+            # This is called via initialize() with epoch=None, just to init some other things.
+            # We are not expected to have prepared any real epoch here.
+            self._num_seqs = 0
+            self.dataset_sorted_seq_idx_list = []
+            self.used_num_seqs_per_subset = [0] * len(self.datasets)
+            return True
+
         # noinspection PyBroadException
         try:
             total_num_seqs = sum([self.datasets[k].num_seqs for k in sorted(self.datasets.keys())])
-- 
2.43.0


From 204fa71ff58056e55f603f346837d333fd5db158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:24 +0000
Subject: [PATCH 46/67] fix: TranslationDataset get_all_tags while the data is
 still loaded in the background

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index da05267..06e8bad 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1702,7 +1702,7 @@ class TranslationDataset(CachedDataset2):
         """
         :rtype: list[str]
         """
-        return [self._tag_prefix + str(line_nr) for line_nr in range(len(self._data[self.main_source_data_key]))]
+        return [self._tag_prefix + str(line_nr) for line_nr in range(self._get_data_len())]
 
     def get_corpus_seq_idx(self, seq_idx):
         """
-- 
2.43.0


From db282a7cddc96d42112cd69897ad853e78a983be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:02 +0000
Subject: [PATCH 47/67] fix: DistributeFilesDataset init_seq_order again with
 an epoch which was already partly read

---
 returnn/datasets/distrib_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..2b225d8 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -300,7 +300,8 @@ class DistributeFilesDataset(CachedDataset2):
 
         # Cleanup and fill _workers.
         for k, worker in list(self._workers.items()):
-            if k < epoch:
+            # A worker cannot go backwards, so also drop it if it was used already.
+            if k < epoch or worker.data_was_requested:
                 worker.exit()
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
@@ -531,6 +532,7 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self.data_was_requested = False
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -548,6 +550,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self.data_was_requested = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From ebcd2b3082c189e78331bb3cad9406799843caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:02 +0000
Subject: [PATCH 48/67] fix: DistributeFilesDataset finish_epoch, exit the
 worker of the finished epoch

---
 returnn/datasets/distrib_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 2b225d8..34a601f 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -436,6 +436,7 @@ class DistributeFilesDataset(CachedDataset2):
 
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
+        epoch = self.epoch  # will be reset by the super call
         super().finish_epoch(free_resources=free_resources)
         if free_resources:
             for worker in self._workers.values():
@@ -443,8 +444,8 @@ class DistributeFilesDataset(CachedDataset2):
             self._workers.clear()
             self._files_order_cache.clear()
         else:
-            if self.epoch in self._workers:
-                worker = self._workers.pop(self.epoch)
+            if epoch in self._workers:
+                worker = self._workers.pop(epoch)
                 worker.exit()
 
     def get_data_keys(self) -> List[str]:
-- 
2.43.0


From a28269b67995b01441d72f4f8c1186ed9b2a97dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:02 +0000
Subject: [PATCH 49/67] fix: DistributeFilesDataset with sharding, do not shard
 the sub dataset again

---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 34a601f..7d2d465 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -328,6 +328,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # We shard the files here, so the sub dataset must not be sharded again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From f19d67ff2666f89b7b4d3d48741e3baec4d8f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:06 +0000
Subject: [PATCH 50/67] fix: MultiProcDataset dedicated sharding with shards of
 different num seqs

---
 returnn/datasets/multi_proc.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..8cddf12 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,7 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Dict, List, Tuple
 import sys
 import gc
 import multiprocessing as mp
@@ -65,6 +65,9 @@ class MultiProcDataset(CachedDataset2):
                 f"invalid sharding_method '{sharding_method}', must be {' or '.join(allowed_sharding_methods)}"
             )
         self._sharding_method = sharding_method
+        # Only for dedicated sharding: workers which have remaining seqs, and next seq idx of each.
+        self._remaining_workers: List[Tuple[int, int]] = []
+        self._next_seq_idx = 0
         self._data_keys = None
         self._data_dtypes: Optional[Dict[str, str]] = None
         self._num_seqs = None
@@ -415,6 +418,8 @@ class MultiProcDataset(CachedDataset2):
                 msg, num_seqs = worker_conn.recv()
                 assert msg == "num_seqs"
                 num_child_seqs.append(num_seqs)
+            self._remaining_workers = [(i, 0) for i in range(self.num_workers)]
+            self._next_seq_idx = 0
             if all(num_s is None for num_s in num_child_seqs):
                 self._num_seqs = None
             elif all(num_s is not None for num_s in num_child_seqs):
@@ -436,11 +441,19 @@ class MultiProcDataset(CachedDataset2):
         return True
 
     def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
-        worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
-        msg, data = worker.recv()
-        assert msg == "data_seq"
+        if self._sharding_method == "dedicated":
+            # The shards can have different num seqs. Round-robin over those which have remaining seqs.
+            data = None
+            while self._remaining_workers and self._next_seq_idx <= seq_idx:
+                worker_idx, worker_seq_idx = self._remaining_workers.pop(0)
+                data = self._get_data_seq_from_worker(worker_idx, worker_seq_idx)
+                if data is not None:
+                    self._remaining_workers.append((worker_idx, worker_seq_idx + 1))
+                    self._next_seq_idx += 1
+            if self._next_seq_idx <= seq_idx:
+                data = None
+        else:
+            data = self._get_data_seq_from_worker(seq_idx % self.num_workers, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
@@ -453,6 +466,13 @@ class MultiProcDataset(CachedDataset2):
         data.seq_idx = seq_idx
         return data
 
+    def _get_data_seq_from_worker(self, worker_idx: int, worker_seq_idx: int) -> Optional[DatasetSeq]:
+        worker = self._worker_parent_conns[worker_idx]
+        worker.send(("get_data_seq", {"seq_idx": worker_seq_idx}))
+        msg, data = worker.recv()
+        assert msg == "data_seq"
+        return data
+
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
-- 
2.43.0


From 94e9e05504061cff2f23ea27a98095a1dafa54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:31 +0000
Subject: [PATCH 51/67] fix: PostprocessingDataset over a dataset without exact
 complete_frac

---
 returnn/datasets/postprocessing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index eac1ac2..6d47976 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -334,6 +334,8 @@ class PostprocessingDataset(CachedDataset2):
             if complete_frac is not None:
                 comp_frac_raw_tensor = numpy.array(complete_frac, dtype=numpy.float32)
                 tensor_dict.data["complete_frac"].raw_tensor = comp_frac_raw_tensor
+            else:
+                del tensor_dict.data["complete_frac"]
             seq_tag_raw_tensor = str_to_numpy_array(self._dataset.get_tag(seq_index))
             tensor_dict.data["seq_tag"].raw_tensor = seq_tag_raw_tensor
 
@@ -414,10 +416,15 @@ class LaplaceOrdering(Callable[[Iterator[TensorDict]], Iterator[TensorDict]]):
         while True:
             # Make sure to not reorder the monotonically increasing values for complete_frac
             # so that the trainer can calculate the appropriate learning rates.
-            complete_frac_values = [tdict.data["complete_frac"].raw_tensor for tdict in seq_buffer]
+            # (complete_frac is not available if the wrapped dataset does not know its num seqs.)
+            has_complete_frac = all("complete_frac" in tdict.data for tdict in seq_buffer)
+            complete_frac_values = [
+                tdict.data["complete_frac"].raw_tensor if has_complete_frac else None for tdict in seq_buffer
+            ]
             seq_buffer.sort(key=self._get_seq_len, reverse=is_down_phase)
             for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values):
-                sorted_item.data["complete_frac"].raw_tensor = comp_frac
+                if has_complete_frac:
+                    sorted_item.data["complete_frac"].raw_tensor = comp_frac
 
             next_seq_buffer = []
 
-- 
2.43.0


From 6fddf48871c5f0b3869e4b772d0f408e54f25351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:42 +0000
Subject: [PATCH 52/67] fix: UnmaskLayer outside of rec loop, ignore mask in
 padded frames

---
 returnn/tf/layers/rec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/tf/layers/rec.py b/returnn/tf/layers/rec.py
index 8285dd6..7429e7e 100644
--- a/returnn/tf/layers/rec.py
+++ b/returnn/tf/layers/rec.py
@@ -9811,7 +9811,10 @@ class UnmaskLayer(LayerBase):
                     mask_out.shape == (None,) and mask_out.batch_shape == (None, None) and mask_out.dtype == "bool"
                 ), "%s: invalid mask %s (outside rec loop)" % (self, self.mask)
                 mask_out = mask_out.copy_as_time_major()
-                mask_t = mask_out.placeholder  # [T,B], e.g. [1,0,1] (ignoring batch-dim for example)
+                # The mask can be anything in the padded frames, thus ignore it there (same as MaskedComputationLayer).
+                mask_t = where_bc(
+                    mask_out.placeholder, mask_out.get_sequence_mask(), tf.convert_to_tensor(False)
+                )  # [T,B], e.g. [1,0,1] (ignoring batch-dim for example)
                 idxs = tf.cumsum(tf.cast(mask_t, tf.int32), axis=mask_out.time_dim_axis)  # [T,B], e.g. [1,1,2]
                 initial_wt = tf.expand_dims(initial, axis=0)  # add time axis
                 src_t = concat_with_opt_broadcast(
-- 
2.43.0


From 7b7eb46658b585ed94733abeaa65f0e8694e3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 53/67] fix: literal_py_to_pickle, large ints, escaped newline,
 trailing data, output buffer size

---
 returnn/util/literal_py_to_pickle.py |  4 +++-
 returnn/util/py-to-pickle.cpp        | 29 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/returnn/util/literal_py_to_pickle.py b/returnn/util/literal_py_to_pickle.py
index 3837064..27b568d 100644
--- a/returnn/util/literal_py_to_pickle.py
+++ b/returnn/util/literal_py_to_pickle.py
@@ -42,7 +42,9 @@ def py_to_pickle(s):
         in_bytes = s.encode("utf8")
     in_ = ctypes.create_string_buffer(in_bytes)
     in_len = len(in_bytes)
-    out_len = in_len + 1000  # should always be enough (some buffer len + len of literal Python code)
+    # Should always be enough (some buffer len + len of literal Python code).
+    # Note that a short float (e.g. "1.,") needs 9 bytes in the pickle.
+    out_len = in_len * 3 + 1000
     out_ = ctypes.create_string_buffer(out_len)
 
     global _lib
diff --git a/returnn/util/py-to-pickle.cpp b/returnn/util/py-to-pickle.cpp
index 04e9847..43d5c44 100644
--- a/returnn/util/py-to-pickle.cpp
+++ b/returnn/util/py-to-pickle.cpp
@@ -15,6 +15,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 
 const int protocol = 3;
@@ -334,6 +335,11 @@ public:
 			parse_error("root", res.first);
 			return;
 		}
+		// Allow a trailing comment, but otherwise nothing else (e.g. further items, tuple, continued strings).
+		if(res.first >= 0 && res.first != '#') {
+			parse_error("root, unexpected trailing data", res.first);
+			return;
+		}
 		end();
 	}
 
@@ -432,11 +438,12 @@ public:
 					escape_hex = 0;
 				}
 				else {
+					if(c == '\n') { escape_mode = Direct; continue; } // backslash and newline ignored
 					char c_;
 					if(c == 'r') c_ = '\r';
 					else if(c == 't') c_ = '\t';
 					else if(c == 'n') c_ = '\n';
-					else if(c == '\\' || c == '"' || c == '\'' || c == '\n') c_ = char(c);
+					else if(c == '\\' || c == '"' || c == '\'') c_ = char(c);
 					else { parse_error("str escaped", c); return; }
 					buf.push_back(c_);
 					escape_mode = Direct;
@@ -486,7 +493,7 @@ public:
 	int parse_num(char first) {
 		int c;
 		std::string buf;
-		bool is_float = false;
+		bool is_float = first == '.';
 		buf.push_back(first);
 
 		while(true) {
@@ -502,8 +509,12 @@ public:
 				break;
 		}
 
+		// Use strtod/strtoll, as std::stod/std::stol would throw an (uncaught) exception on invalid input.
+		char* end_ptr = NULL;
+		errno = 0;
 		if(is_float) {
-			double val = std::stod(buf);
+			double val = strtod(buf.c_str(), &end_ptr);
+			if(end_ptr != buf.c_str() + buf.length()) { parse_error("float", c); return c; }
 			char pdata[9];
 			pdata[0] = BINFLOAT;
 			_PyFloat_Pack8(val, (unsigned char *)&pdata[1], 0);
@@ -511,8 +522,16 @@ public:
 		}
 		else {
 			int len;
-			long val = std::stol(buf);
-			char pdata[8];
+			long long val = strtoll(buf.c_str(), &end_ptr, 10);
+			if(end_ptr != buf.c_str() + buf.length() || errno == ERANGE) { parse_error("int", c); return c; }
+			char pdata[10];
+			if(val < -0x80000000LL || val > 0x7fffffffLL) {  // does not fit into BININT (signed 32 bit)
+				pdata[0] = LONG1;
+				pdata[1] = 8;
+				_write_size64(pdata + 2, (size_t) val);
+				write_data(pdata, 10);
+				return c;
+			}
 			pdata[1] = (unsigned char)(val & 0xff);
 			pdata[2] = (unsigned char)((val >> 8) & 0xff);
 			pdata[3] = (unsigned char)((val >> 16) & 0xff);
-- 
2.43.0


From 19e7bfe6fddef38d3bd88ddf4b53e98a275dd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:27 +0000
Subject: [PATCH 54/67] fix: BPE with vocab, file version 0.1, do not produce
 empty segment when reverting merge with end-of-word

---
 returnn/util/bpe.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/returnn/util/bpe.py b/returnn/util/bpe.py
index 6ba41f9..8150a0d 100644
--- a/returnn/util/bpe.py
+++ b/returnn/util/bpe.py
@@ -170,14 +170,15 @@ class StandardBytePairEncoder:
         """Recursively split segment into smaller units (by reversing BPE merges)
         until all units are either in-vocabulary, or cannot be split further."""
 
-        # noinspection PyBroadException
-        try:
-            if final:
-                left, right = bpe_codes[segment + "</w>"]
-                right = right[:-4]
-            else:
-                left, right = bpe_codes[segment]
-        except Exception:  # TODO fix
+        if final:
+            left, right = bpe_codes.get(segment + "</w>", (None, ""))
+            right = right[:-4]
+            if not right and self._bpe_file_version == (0, 1):
+                # "</w>" was a separate symbol, which is not part of the output.
+                left, right = bpe_codes.get(segment, (None, ""))
+        else:
+            left, right = bpe_codes.get(segment, (None, ""))
+        if not left or not right:
             # sys.stderr.write('cannot split {0} further.\n'.format(segment))
             yield segment
             return
-- 
2.43.0


From 6c739e739adc664c1b313ca301903f37396f3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:20 +0000
Subject: [PATCH 55/67] fix: gradient_checkpoint_scope with enclosing
 saved_tensors_hooks, nested scopes, other threads

---
 returnn/torch/util/gradient_checkpoint.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index 901a1ce..fbdb46d 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -529,6 +529,9 @@ def _register_custom_saved_tensors_hooks(*, existing_scope: torch.autograd.graph
     thread = threading.current_thread()
     with _custom_saved_tensors_hooks_lock:
         if thread in _custom_saved_tensors_hooks_registered_threads:
+            if existing_scope not in _custom_saved_tensors_hooks_tls_ctx.stack:
+                # It was entered before the other scopes (before we registered), e.g. nested gradient_checkpoint_scope.
+                _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, existing_scope)
             return
         if getattr(_custom_saved_tensors_hooks_tls_ctx, "stack", None) is None:
             _custom_saved_tensors_hooks_tls_ctx.stack = []
@@ -566,6 +569,8 @@ def _unregister_custom_saved_tensors_hooks():
 
 
 def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_hooks):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):  # only registered in some other thread
+        return _orig_saved_tensors_hooks_enter(self)
     _custom_saved_tensors_hooks_call_callbacks()
     # The callbacks might have unregistered us. Only add to the stack if we are still active.
     if _custom_saved_tensors_hooks_tls_ctx.active:
@@ -576,13 +581,11 @@ def _custom_saved_tensors_hooks_enter(self: torch.autograd.graph.saved_tensors_h
 def _custom_saved_tensors_hooks_exit(
     self: torch.autograd.graph.saved_tensors_hooks, exc_type=None, exc_val=None, exc_tb=None
 ):
+    if not getattr(_custom_saved_tensors_hooks_tls_ctx, "active", False):  # only registered in some other thread
+        return _orig_saved_tensors_hooks_exit(self, exc_type, exc_val, exc_tb)
     if self not in _custom_saved_tensors_hooks_tls_ctx.stack:
-        raise Exception(
-            f"saved_tensors_hooks __exit__ mismatch."
-            f" stack {_custom_saved_tensors_hooks_tls_ctx.stack},"
-            f" queued_exits {_custom_saved_tensors_hooks_tls_ctx.queued_exits},"
-            f" got self {self}"
-        )
+        # It was entered before all the other scopes (before we registered).
+        _custom_saved_tensors_hooks_tls_ctx.stack.insert(0, self)
     _custom_saved_tensors_hooks_tls_ctx.queued_exits.append(self)
     _custom_saved_tensors_hooks_call_callbacks()
     while _custom_saved_tensors_hooks_tls_ctx.stack:
-- 
2.43.0


From bd0d68d7eceb8e7258d2e54bb021888a5949039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:20 +0000
Subject: [PATCH 56/67] fix: gradient_checkpoint_scope, tensor modified
 in-place after the scope

---
 returnn/torch/util/gradient_checkpoint.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/returnn/torch/util/gradient_checkpoint.py b/returnn/torch/util/gradient_checkpoint.py
index fbdb46d..c1036b7 100644
--- a/returnn/torch/util/gradient_checkpoint.py
+++ b/returnn/torch/util/gradient_checkpoint.py
@@ -155,6 +155,7 @@ class gradient_checkpoint_scope:
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.exit_args = (exc_type, exc_val, exc_tb)
         self.record_graph_scope.__exit__(exc_type, exc_val, exc_tb)
+        self.record_graph_scope.graph.store_tensor_versions()
         if self.record_graph_scope.graph.is_any_recorded_tensor_alive():
             # Do not exit saved_tensors_hooks_scope here
             # because we still want to pack any tensors which were captured in our graph
@@ -212,6 +213,8 @@ class gradient_checkpoint_scope:
         # _RecordGraph.__torch_dispatch__ should have recorded all newly created tensors.
         x_ = self.record_graph_scope.graph.graph_tensor_from_weak_raw_tensor.get(x, x)
         if isinstance(x_, _GraphTensor):
+            if x_.version is not None and x_.version != x._version:
+                return x  # was modified in-place after the scope, so the recomputation would give the wrong value
             x._RETURNN_grad_ckpt_del_hook = _DelHook(_WeakMethod(self._tensor_del_hook))
         return x_
 
@@ -280,6 +283,12 @@ class _Graph:
         # it would also be removed from graph_tensor_from_weak_raw_tensor.
         return bool(self.graph_tensor_from_weak_raw_tensor)
 
+    def store_tensor_versions(self):
+        """store the current versions of the recorded tensors, to detect later in-place modifications"""
+        for raw_tensor, tensor_ in self.graph_tensor_from_weak_raw_tensor.items():
+            if not raw_tensor.is_inference():  # inference tensors have no version
+                tensor_.version = raw_tensor._version
+
     def record_op(self, func: Any, args: Sequence[Any], kwargs: Dict[str, Any], out: Any):
         """record op"""
         out_flat, _ = pytree.tree_flatten(out)
@@ -393,6 +402,7 @@ class _GraphOp:
 class _GraphTensor:
     op: _GraphOp
     out_flat_idx: int
+    version: Optional[int] = None  # of the raw tensor when the scope was exited
 
     def get_recomputed(self) -> torch.Tensor:
         """assuming it was recomputed, return the raw tensor."""
-- 
2.43.0


From 93917ec7ef9cf1d454fbd5e20a2850b263ef33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 57/67] fix: Config pickling, keep untyped options (e.g. via
 command line)

---
 returnn/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/config.py b/returnn/config.py
index e973115..7851aab 100644
--- a/returnn/config.py
+++ b/returnn/config.py
@@ -57,6 +57,8 @@ class Config:
             "_pid": os.getpid(),
             "_self_memo_idx": memo_idx,
             "_typed_dict_pickled": buffer.getvalue(),
+            "_dict": self.dict,
+            "_files": self.files,
             "_is_global": self is get_global_config(raise_exception=False),
         }
 
@@ -73,6 +75,8 @@ class Config:
         unpickler = _Unpickler(buffer)
         unpickler.memo[state["_self_memo_idx"]] = self
         self.typed_dict = unpickler.load()
+        self.dict = state.get("_dict", {})
+        self.files = state.get("_files", [])
 
         if state["_is_global"] and os.getpid() != state["_pid"]:
             set_global_config(self)
-- 
2.43.0


From 46625642c6c7f06a7bb45f0ade15f106cb3d42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:12 +0000
Subject: [PATCH 58/67] fix: global_config_ctx, also recover config in TF
 default graph

---
 returnn/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/config.py b/returnn/config.py
index 7851aab..4d82ebb 100644
--- a/returnn/config.py
+++ b/returnn/config.py
@@ -607,10 +607,12 @@ def global_config_ctx(config: Optional[Config]):
     """
     global _global_config
     prev_global_config = _global_config
+    prev_tf_graph_config = _get_or_set_config_via_tf_default_graph()
     try:
         set_global_config(config)
         yield
     finally:
+        _get_or_set_config_via_tf_default_graph(prev_tf_graph_config, assign=True)
         _global_config = prev_global_config
 
 
-- 
2.43.0


From 5cc835357d1d2d456e90d65eddf2a8ca2b186a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:10 +0000
Subject: [PATCH 59/67] fix: rf Cache with gone dims, dims without size,
 special dims

---
 returnn/frontend/_cache.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index a6b0075..b8ef272 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -60,7 +60,11 @@ class Cache:
                 assert isinstance(key_item, DimWrapper)
                 dim_orig = key_item_orig.dim_ref()
                 dim = key_item.dim_ref()
-                assert isinstance(dim_orig, Dim) and isinstance(dim, Dim)
+                assert isinstance(dim, Dim)
+                if dim_orig is None:
+                    # Only the dim value is relevant for the key (see DimWrapper), so the orig dim might be gone by now.
+                    # In that case, it also cannot be in the cached value.
+                    continue
                 dim_map[dim_orig] = dim
 
         # noinspection PyShadowingNames
@@ -188,14 +192,21 @@ class DimWrapper:
         if isinstance(other, DimWrapper):
             if self.dim_value is not None:
                 return self.dim_value == other.dim_value
-            return self.dim_ref() == other.dim_ref() and self.dyn_size_ref() is other.dyn_size_ref()
+            if other.dim_value is not None:
+                return False
+            return self.dim_ref() == other.dim_ref() and self._get_dyn_size() is other._get_dyn_size()
         return False
 
+    def _get_dyn_size(self):
+        return self.dyn_size_ref() if self.dyn_size_ref is not None else None
+
     def __hash__(self):
         return self._hash
 
 
 def _dim_value_for_key(dim: Dim) -> Optional[int]:
+    if dim.special:
+        return None  # e.g. single_step_dim, this is different from any other dim of the same size
     if dim.size is not None:
         return dim.size
     if dim.dyn_size_ext is not None and not dim.dyn_size_ext.dims:
-- 
2.43.0


From dd689f7f4ab4ae0de863af8b8afd75a3bb84dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:10 +0000
Subject: [PATCH 60/67] fix: relative_positional_encoding cache, distinguish
 device

---
 returnn/frontend/attention.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/frontend/attention.py b/returnn/frontend/attention.py
index 89ab4f3..6d96c99 100644
--- a/returnn/frontend/attention.py
+++ b/returnn/frontend/attention.py
@@ -924,7 +924,7 @@ def relative_positional_encoding(
     """
     if not dtype:
         dtype = rf.get_default_float_dtype()
-    cache_key = (query_spatial_dim, key_value_spatial_dim, feat_dim, query_offset, dtype)
+    cache_key = (query_spatial_dim, key_value_spatial_dim, feat_dim, query_offset, dtype, rf.get_default_device())
     cache_entry = _relative_positional_encoding_cache.get(cache_key)
     if cache_entry is not None:
         return cache_entry
-- 
2.43.0


From 1bcc9cadf1819268f7aa17b1af05a7e20cfe871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:10 +0000
Subject: [PATCH 61/67] fix: lru_cache, cache_set of an existing key, maxsize 0
 set while computing

---
 returnn/util/lru_cache.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 1f45760..8552c33 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -101,8 +101,7 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 return result
             misses += 1
         result = user_function(*args, **kwds)
-        if maxsize > 0:
-            _cache_insert(key, result)
+        _cache_insert(key, result)
         return result
 
     def _cache_insert(key, result):
@@ -114,6 +113,8 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
                 # update is already done, we need only return the
                 # computed result and update the count of misses.
                 pass
+            elif maxsize == 0:
+                pass  # no caching (note that the maxsize might have been changed while the lock was released)
             elif full:
                 # Use the old root to store the new key and result.
                 oldroot = root
@@ -170,9 +171,13 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         Sets a value in the cache directly.
         """
         nonlocal root, full
-        if maxsize > 0:
-            key = make_key(args, kwargs, typed)
-            _cache_insert(key, result)
+        key = make_key(args, kwargs, typed)
+        with lock:
+            link = cache_get(key)
+            if link is not None:
+                link[RESULT] = result
+            else:
+                _cache_insert(key, result)
 
     def cache_peek(*args, update_statistics: bool = True, fallback=None, **kwargs):
         """
-- 
2.43.0


From ceb42a01147a9bfcdfd0f2adb58cf32e9bed6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 62/67] fix: simplify_and_format_number, keep zeros of integers
 and exponents

Only zeros after a decimal point can be removed.
E.g. log_grad_norm=10 reported the score under grad_norm:p1.
---
 returnn/util/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/util/math.py b/returnn/util/math.py
index d6bb8a2..2eb0fdd 100644
--- a/returnn/util/math.py
+++ b/returnn/util/math.py
@@ -152,7 +152,10 @@ class StepFunction:
 def simplify_and_format_number(n: Union[int, float]) -> str:
     """Format a number, removing trailing zeros and the decimal point if it is an integer"""
     if isinstance(n, (int, float)):
-        return str(n).rstrip("0").rstrip(".")
+        s = str(n)
+        if "." in s and "e" not in s:
+            s = s.rstrip("0").rstrip(".")
+        return s
     else:
         raise TypeError(f"Expected int or float, got {n!r} type {type(n)}")
 
-- 
2.43.0


From 7eac883edf1ea809c5c5e00bb3089c5730395c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:44 +0000
Subject: [PATCH 63/67] fix: torch pad, default value with dynamic dims

With handle_dynamic_dims (default since behavior version 21) and a ragged dim,
right padding without explicit value failed with a TypeError.
---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 991214a..df1728d 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -511,6 +511,8 @@ class TorchBackend(Backend[torch.Tensor]):
                     raise NotImplementedError(
                         f"pad: mode {mode} not implemented with dynamic dims and handle_dynamic_dims=True"
                     )
+                if value is None:
+                    value = 0  # default in torch.nn.functional.pad
                 for out_dim, middle, (left, right) in zip(out_dims, axes, padding):
                     if (
                         middle.need_masking()
-- 
2.43.0


From 82ed8b629c6781418cd982f552a80e0b6548bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:46 +0000
Subject: [PATCH 64/67] fix: NumpyDumpDataset, without end_seq, the last seq
 was lost

---
 returnn/datasets/numpy_dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/numpy_dump.py b/returnn/datasets/numpy_dump.py
index fd87b9d..d03feee 100644
--- a/returnn/datasets/numpy_dump.py
+++ b/returnn/datasets/numpy_dump.py
@@ -44,7 +44,7 @@ class NumpyDumpDataset(Dataset):
             i += 1
         if end_seq is None:
             assert last_seq is not None, "None found. Check %s." % (self.file_format_data % self.start_seq)
-            end_seq = last_seq
+            end_seq = last_seq + 1
         else:
             assert last_seq == end_seq - 1, "Check %s." % (self.file_format_data % end_seq)
         assert end_seq > self.start_seq
-- 
2.43.0


From a8c12165baf9bf8e86f9e4ecf69798d6e38f6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 65/67] fix: TaskVariableAssignmentDataset, random choice of a
 key in Python 3

---
 returnn/datasets/generating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 244789f..9cd3331 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -583,7 +583,7 @@ class TaskVariableAssignmentDataset(GeneratingDataset):
             seq += "S(%s,%s)" % (key, value)
             store[key] = value
         # Now one query.
-        key = self.random.choice(store.keys())
+        key = self.random.choice(list(store.keys()))
         value = store[key]
         seq += ",Q(%s)" % key
         seq += "%s." % value
-- 
2.43.0


From 995c0908af3e65f68d61ef04be0cd6edd0e567fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:43 +0000
Subject: [PATCH 66/67] fix: NumpyDumpDataset with partition_epoch, and with
 single frame seqs

---
 returnn/datasets/numpy_dump.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/numpy_dump.py b/returnn/datasets/numpy_dump.py
index d03feee..b6c4f23 100644
--- a/returnn/datasets/numpy_dump.py
+++ b/returnn/datasets/numpy_dump.py
@@ -55,8 +55,8 @@ class NumpyDumpDataset(Dataset):
         :param int seq_idx:
         """
         real_idx = self._seq_index[seq_idx]
-        features = numpy.loadtxt(self.file_format_data % real_idx)
-        targets = numpy.loadtxt(self.file_format_targets % real_idx)
+        features = numpy.loadtxt(self.file_format_data % real_idx, ndmin=2)
+        targets = numpy.loadtxt(self.file_format_targets % real_idx, ndmin=1)
         assert features.ndim == 2
         assert features.shape[1] == self.num_inputs
         assert targets.ndim == 1
@@ -76,7 +76,7 @@ class NumpyDumpDataset(Dataset):
             raise NotImplementedError
         if self.seq_ordering == "sorted":  # not supported atm
             self.seq_ordering = "default"
-        self._seq_index = [i + self.start_seq for i in self.get_seq_order_for_epoch(epoch, self.num_seqs)]
+        self._seq_index = [i + self.start_seq for i in self.get_seq_order_for_epoch(epoch, self._num_seqs)]
         self.cached_seqs[:] = []
         return True
 
@@ -121,6 +121,8 @@ class NumpyDumpDataset(Dataset):
         """
         :rtype: int
         """
+        if self._seq_index is not None:
+            return len(self._seq_index)  # e.g. with partition_epoch
         return self._num_seqs
 
     # ------------ Seq cache management -----------
-- 
2.43.0


From bfc27fb03bee4b36335d65301fb7b85c81aaf63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:54 +0000
Subject: [PATCH 67/67] fix: NumpyDumpDataset, load seqs after all older were
 removed from the cache

---
 returnn/datasets/numpy_dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/numpy_dump.py b/returnn/datasets/numpy_dump.py
index b6c4f23..3865ed9 100644
--- a/returnn/datasets/numpy_dump.py
+++ b/returnn/datasets/numpy_dump.py
@@ -154,6 +154,7 @@ class NumpyDumpDataset(Dataset):
             return -1
 
     def _add_cache_seq(self, seq_idx, features, targets):
-        last_seq_idx = self._get_cache_last_seq_idx()
-        assert seq_idx == last_seq_idx + 1
+        if self.cached_seqs:
+            last_seq_idx = self._get_cache_last_seq_idx()
+            assert seq_idx == last_seq_idx + 1
         self.cached_seqs += [DatasetSeq(seq_idx, features, targets=targets)]
-- 
2.43.0

