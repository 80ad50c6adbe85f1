From 6887b94c0ad4563034be5091827a6eb7b86ad22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 01/32] fix: persist_to_file hashes its key as bytes (sha1 of
 str raised TypeError)

---
 sureal/tools/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..d0fbb50 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,7 +25,7 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
                 json.dump(cache, open(file_name, 'wt'))
-- 
2.43.0


From a46dd6f313e9b70142711bfe3ad0c40c1a2dd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 02/32] fix: convolution_of_two_uniforms evaluates its ramps at
 the centred variable

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 6d2892a958b2526a1908bd4e923b97aeac6afe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 03/32] fix: paired comparison reader places the compared video
 by its asset_id, not by list position

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..319356d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1027,14 +1027,20 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> i_dis_video
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
                 pvs_i = i_dis_video
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
 
-- 
2.43.0


From d057450e2b7378fbb7b8edb6cb2997702cf7dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 04/32] fix: to_pc_dataset no longer rewrites the list-style
 scores of its source dataset

---
 sureal/dataset_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 319356d..366d83b 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -400,7 +400,8 @@ class RawDatasetReader(DatasetReader):
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-            # converting to dict_style
+            # converting to dict_style (on a copy, the source dataset must stay untouched)
+            dis_videos = copy.deepcopy(dis_videos)
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From be2485a846cc820715fb3c1cca66b12ba2f00a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 05/32] fix: to_pc_dataset looks up per-asset settings by
 video, not by rank in the subject's own list

---
 sureal/dataset_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 366d83b..4c5f4b0 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -435,6 +435,8 @@ class RawDatasetReader(DatasetReader):
                 for idx2 in range(idx):
                     assetid = assetids[idx]
                     assetid2 = assetids[idx2]
+                    i_dis_video = d_assetid_disvideoidx[assetid]
+                    i_dis_video2 = d_assetid_disvideoidx[assetid2]
                     content_id = d_subj_assetid[subj][assetid]['content_id']
                     content_id2 = d_subj_assetid[subj][assetid2]['content_id']
 
@@ -451,7 +453,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[i_dis_video] + per_asset_sampling_rates[i_dis_video2]) / 2.0
                         else:
                             assert False
                     else:
@@ -473,7 +475,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[i_dis_video] + per_asset_cointoss_rates[i_dis_video2]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -485,8 +487,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[i_dis_video]
+                                mscore2 = per_asset_mean_scores[i_dis_video2]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -495,8 +497,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[i_dis_video])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[i_dis_video2])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From a10e181f4c6d195f806e561fa2169b88b4621b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:53 +0000
Subject: [PATCH 06/32] fix: to_combined_overlap_dataset leaves its sources
 untouched and merges tuple repetitions flat

---
 sureal/dataset_reader.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 4c5f4b0..a3a5c80 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -565,20 +565,17 @@ class RawDatasetReader(DatasetReader):
                     new_dis_video = copy.deepcopy(vid1)
                     new_dis_video['content_id'] = new_content_id
 
-                    new_dis_video['os'].update(vid2['os'])  # combined the 'os's but overrode when subject is in both
+                    new_dis_video['os'].update(copy.deepcopy(vid2['os']))  # combined the 'os's but overrode when subject is in both
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
-                                new_os = [vid1['os'][key]]
-                            else:
-                                new_os = vid1['os'][key]
-
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
-                            else:
-                                new_os.append(vid2['os'][key])
-                                new_dis_video['os'][key] = new_os
+                            new_os = []
+                            for scores in [vid1['os'][key], vid2['os'][key]]:
+                                if isinstance(scores, (list, tuple)):
+                                    new_os += list(scores)
+                                else:
+                                    new_os.append(scores)
+                            new_dis_video['os'][key] = new_os
 
                     newone.dis_videos.append(new_dis_video)
         return newone
-- 
2.43.0


From 9f79d61a9789761c821c986eb78cc7aa8a8f0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 07/32] fix: formatting the output of a model that reports no
 std (BT_NR) no longer raises

---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..7b19b9a 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if 'quality_scores_std' in result and result['quality_scores_std'] is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if 'quality_scores_std' in result and result['quality_scores_std'] is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0


From b5c963e8f52750efdece230e3078c9072d2eb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 08/32] fix: mocked readers export plain-number votes, so
 repetitions can be read back

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index a3a5c80..d78d34b 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -642,7 +642,7 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            dis_video['os'] = scores.tolist()
 
         return newone
 
-- 
2.43.0


From ebe48230c4b44a54f707a33e5fc579a0d853efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 09/32] fix: to_persubject_dataset accepts dictionary-style
 datasets with repeated votes

---
 sureal/dataset_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index d78d34b..c13d190 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -299,8 +299,6 @@ class RawDatasetReader(DatasetReader):
 
     def to_persubject_dataset(self, quality_scores, **kwargs):
 
-        import math
-
         newone = self._prepare_new_dataset(kwargs)
 
         # ref_videos: deepcopy
@@ -317,7 +315,7 @@ class RawDatasetReader(DatasetReader):
             # new style: opinion is specified as a dict: user -> score. In this
             # case, quality_score may contain nan. In this case: filter them out
             if isinstance(dis_video['os'], dict):
-                quality_score = list(filter(lambda x: not math.isnan(x), quality_score))
+                quality_score = list(filter(lambda x: not np.all(np.isnan(x)), quality_score))
 
             assert len(dis_video['os']) == len(quality_score)
 
-- 
2.43.0


From 18ed48eaa78b155746bd2603531cd0ee219d3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 10/32] fix: a subject with undefined correlation no longer
 silently drops the whole panel

---
 sureal/subjective_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..a724054 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -294,14 +294,16 @@ class SubjectiveModel(TypeVersionEnabled):
                         assert False
 
                 # find the rejection threshold
-                if (np.mean(r) - np.std(r)) > 0.7:
+                if (np.nanmean(r) - np.nanstd(r)) > 0.7:
                     rejection_thr = 0.7
                 else:
-                    rejection_thr = np.mean(r) - np.std(r)
+                    rejection_thr = np.nanmean(r) - np.nanstd(r)
 
-                s_esr = s_esr[:, r>rejection_thr, :]
+                observer_rejected = r <= rejection_thr
 
-                ret['observer_rejected'] = r <= rejection_thr
+                s_esr = s_esr[:, ~observer_rejected, :]
+
+                ret['observer_rejected'] = observer_rejected
                 ret['observer_rejected_1st_stats'] = r
                 ret['observer_rejected_2nd_stats'] = np.zeros(np.size(r))
 
-- 
2.43.0


From 30baab861975662079245ac436358c7dfb7a3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 11/32] fix: selecting videos selects by index, as validated,
 instead of by asset_id

---
 sureal/dataset_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index c13d190..ffb02df 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -826,10 +826,7 @@ class SelectDisVideoRawDatasetReader(MockedRawDatasetReader):
     @property
     @override(DatasetReader)
     def dis_videos(self):
-        d_assetid_disvideo = dict()  # build dict: asset_id -> dis_video
-        for dv in self.dataset.dis_videos:
-            d_assetid_disvideo[dv['asset_id']] = dv
-        return [d_assetid_disvideo[asset_id] for asset_id in self.input_dict['selected_dis_videos']]
+        return [self.dataset.dis_videos[idx] for idx in self.input_dict['selected_dis_videos']]
 
     def to_dataset(self):
         raise NotImplementedError
-- 
2.43.0


From ad009abcd2bbccd8966534f024424659bc1a713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 12/32] fix: differential scoring pairs the reader's own videos
 with their references

---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index a724054..fdb2510 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From 4f812db4eb38c52057678df8397a7400935cd0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 13/32] fix: every imported dataset file gets its own module,
 files sharing a name no longer overwrite each other

---
 sureal/tools/misc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..1e9b4cf 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -113,12 +113,13 @@ def import_python_file(filepath):
     :return:
     """
     filename = get_file_name_without_extension(filepath)
-    try:
-        from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
-    except ImportError:
-        import imp
-        ret = imp.load_source(filename, filepath)
+    from importlib.machinery import SourceFileLoader
+    from types import ModuleType
+    # execute in a fresh module that is not registered in sys.modules, so that
+    # files sharing a name (or imported twice) do not overwrite each other
+    ret = ModuleType(filename)
+    ret.__file__ = filepath
+    SourceFileLoader(filename, filepath).exec_module(ret)
     return ret
 
 
-- 
2.43.0


From e77c9898b023e50399f7247b662688b0b3988012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 14/32] fix: selecting subjects of a list-style dataset no
 longer blanks those beyond the selection size

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index ffb02df..4d86c02 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(self._get_num_observers()):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(self._get_num_observers()):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From 8480682e5e5c1f1630bfd2135089b37023a09f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 15/32] fix: results on selected subjects name the selected
 subjects, not the whole panel

---
 sureal/dataset_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 4d86c02..4962150 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -792,7 +792,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         selected_subjects = self.input_dict['selected_subjects']
 
         # assert in 0, 1, 2...., num_observer -1
-        observer_idxs = range(super(SelectSubjectRawDatasetReader, self).num_observers)
+        observer_idxs = range(RawDatasetReader(self.dataset).num_observers)
         for subject in selected_subjects:
             assert subject in observer_idxs
 
@@ -800,6 +800,10 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
     def num_observers(self):
         return len(self.input_dict['selected_subjects'])
 
+    def _get_list_observers(self):
+        list_observers = super()._get_list_observers()
+        return [list_observers[subject] for subject in self.input_dict['selected_subjects']]
+
     @property
     def opinion_score_3darray(self):
         """
@@ -807,7 +811,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         distorted videos, second dimension the number of observers, and third the maximum number of repetitions
         """
         selected_subjects = self.input_dict['selected_subjects']
-        score_mtx = super().opinion_score_3darray
+        score_mtx = RawDatasetReader(self.dataset).opinion_score_3darray
         score_mtx = score_mtx[:, selected_subjects, :]
         return score_mtx
 
-- 
2.43.0


From 4643244bc58a30e479485338aec0f6ca4c0e70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 16/32] fix: dataset files with missing (nan) values can be
 imported back

---
 sureal/dataset_reader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 4962150..49f16be 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -12,6 +12,18 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class _DatasetPrettyPrinter(pprint.PrettyPrinter):
+    """
+    Pretty printer whose output can always be imported back: non-finite numbers
+    are spelled as float('nan') etc. instead of a bare (undefined) name.
+    """
+
+    def format(self, object, context, maxlevels, level):
+        if isinstance(object, float) and not np.isfinite(object):
+            return "float('{}')".format(float(object)), True, False
+        return super().format(object, context, maxlevels, level)
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -97,18 +109,18 @@ class DatasetReader(object):
                     output_file.write('{} = '.format(key) + repr(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
-            output_file.write('ref_videos = ' + pprint.pformat(
+            output_file.write('ref_videos = ' + _DatasetPrettyPrinter().pformat(
                 dataset.ref_videos) + '\n')
             output_file.write('\n')
-            output_file.write('dis_videos = ' + pprint.pformat(
+            output_file.write('dis_videos = ' + _DatasetPrettyPrinter().pformat(
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('subjects = ' + pprint.pformat(
+                output_file.write('subjects = ' + _DatasetPrettyPrinter().pformat(
                     dataset.subjects) + '\n')
             if 'license' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('license = ' + pprint.pformat(
+                output_file.write('license = ' + _DatasetPrettyPrinter().pformat(
                     dataset.license) + '\n')
 
 
-- 
2.43.0


From 6b67afba3298e7687b0d2c28a30eb7cef97e62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:53 +0000
Subject: [PATCH 17/32] fix: to_pc_dataset no longer turns missing votes into
 ties

---
 sureal/dataset_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 49f16be..a3f330a 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -422,6 +422,8 @@ class RawDatasetReader(DatasetReader):
         d_subj_assetid = dict()
         for dis_video in dis_videos:
             for subj in dis_video['os']:
+                if np.all(np.isnan(dis_video['os'][subj])):
+                    continue  # missing vote: nothing to compare
                 if subj not in d_subj_assetid:
                     d_subj_assetid[subj] = dict()
                 assert dis_video['asset_id'] not in d_subj_assetid[subj] # assuming no repetition for single subject and a dis_video
-- 
2.43.0


From f8c6e694f28fa8d294fc9cf02c2e1a624a700939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:39 +0000
Subject: [PATCH 18/32] fix: memoized functions accept arguments that are not
 hashable

---
 sureal/tools/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d0fbb50..f64f717 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -96,7 +96,9 @@ class memoized(object):
         self.cache = {}
 
     def __call__(self, *args):
-        if not hasattr(args, "__hash__"):
+        try:
+            hash(args)
+        except TypeError:  # not hashable, hence cannot be cached
             return self.func(*args)
         if args in self.cache:
             return self.cache[args]
-- 
2.43.0


From dc487546830fce8d92dabfbb7cb5d3ab594dad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:41 +0000
Subject: [PATCH 19/32] fix: importing a dataset file never returns stale
 bytecode of an earlier version

---
 sureal/tools/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 1e9b4cf..f0d636e 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -119,7 +119,10 @@ def import_python_file(filepath):
     # files sharing a name (or imported twice) do not overwrite each other
     ret = ModuleType(filename)
     ret.__file__ = filepath
-    SourceFileLoader(filename, filepath).exec_module(ret)
+    # always compile the current content: cached bytecode is only invalidated by
+    # size and by modification time in seconds, hence may be stale
+    loader = SourceFileLoader(filename, filepath)
+    exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
     return ret
 
 
-- 
2.43.0


From bf5aa67c16c88785ad093cd4bf0efb2ca8d17a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:22 +0000
Subject: [PATCH 20/32] fix: dataset files with missing (nan) values in
 attributes can be imported back

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index a3f330a..e108380 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -106,7 +106,7 @@ class DatasetReader(object):
             for key in dataset.__dict__.keys():
                 if key != 'ref_videos' and key != 'dis_videos' \
                         and key != 'subjects' and not key.startswith('__'):
-                    output_file.write('{} = '.format(key) + repr(
+                    output_file.write('{} = '.format(key) + _DatasetPrettyPrinter().pformat(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
             output_file.write('ref_videos = ' + _DatasetPrettyPrinter().pformat(
-- 
2.43.0


From 3ba6c32991495c682cf04995a34a42fc0ab24aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:28 +0000
Subject: [PATCH 21/32] fix: correlation-based rejection no longer fails on a
 subject who rated a single video

---
 sureal/subjective_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index fdb2510..00d2514 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -286,7 +286,9 @@ class SubjectiveModel(TypeVersionEnabled):
                 r = np.zeros(np.size(s_es, 1))
                 for obs_idx in range(np.size(s_es,1)):
                     nans = np.isnan(s_es[:, obs_idx])
-                    if subject_rejection_type == 'pearson':
+                    if np.sum(~nans) < 2:
+                        r[obs_idx] = float('nan')  # undefined correlation
+                    elif subject_rejection_type == 'pearson':
                         r[obs_idx], _ = stats.pearsonr(s_es[:, obs_idx][~nans], mos[~nans])
                     elif subject_rejection_type == 'spearman':
                         r[obs_idx], _ = stats.spearmanr(s_es[:, obs_idx][~nans], mos[~nans])
-- 
2.43.0


From 2dad21684dabc464b816ead8f3c3114fc4c017f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:28 +0000
Subject: [PATCH 22/32] fix: honour the seed in the logistic synthetic dataset
 reader

---
 sureal/dataset_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index e108380..598d2e0 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -747,6 +747,9 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
         use logistic instead of
         """
 
+        if 'seed' in self.input_dict:
+            np.random.seed(self.input_dict['seed'])
+
         S = self.num_observers
         E = self.num_dis_videos
 
-- 
2.43.0


From cd02c67c16f0dc5666a3c6d2cf886382f335de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:46 +0000
Subject: [PATCH 23/32] fix: let parallel_map take an iterator, as the logistic
 convolution passes one

---
 sureal/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index f0d636e..6651ab3 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -230,7 +230,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
             sleep(pause_sec) # check every x sec
 
     # finally, collect results
-    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))
+    rets = list(map(lambda idx: return_dict[idx], range(len(list_idx_args))))  # list_args may be an iterator
 
     return rets
 
-- 
2.43.0


From b60a2e784f97342bb6f64b61cefd4b31294b9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:18 +0000
Subject: [PATCH 24/32] fix: mos_to_sureal reports unknown columns on stderr,
 they no longer corrupt the JSON on stdout

---
 resource/util/mos_to_sureal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource/util/mos_to_sureal.py b/resource/util/mos_to_sureal.py
index 8ab03c8..083f25d 100755
--- a/resource/util/mos_to_sureal.py
+++ b/resource/util/mos_to_sureal.py
@@ -63,7 +63,7 @@ def extract_scores_from_record(record):
             continue
         # skip columns that do not start with "s" or "user", or "subject"
         if not any([key.lower().startswith(s) for s in ["user", "s", "subject"]]):
-            print("Unkown column named " + str(key) + "!")
+            print("Unkown column named " + str(key) + "!", file=sys.stderr)
             continue
         ratings[key] = int(val)  # FIXME: should we allow fractional scores?
 
-- 
2.43.0


From 0a9822f4e24033e14c0a86a8e6d0f61e866ceb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:01 +0000
Subject: [PATCH 25/32] fix: sorted quality plot draws each video's own
 confidence interval

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 7b19b9a..ef125eb 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -314,7 +314,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
                 elif plot_type == 'errorbar':
                     if 'quality_scores_ci95' in result:
                         try:
-                            quality_error = result['quality_scores_ci95']
+                            quality_error = [list(np.array(err)[order]) for err in result['quality_scores_ci95']]
                             label += ' [avg CI {:.2f}]'.format(np.mean(np.array(quality_error[0]) +
                                                                        np.array(quality_error[1])))
                         except TypeError:
-- 
2.43.0


From a377bf434ac63196ed063aa589fbadab311f1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:57 +0000
Subject: [PATCH 26/32] fix: a missing vote has no uniform likelihood instead
 of an impossible one

With numerical_pdf='uniform' a missing vote (NaN) fell through to the
'outside of the support' branch, so that its density was 0 and the
log-likelihood -inf.
---
 sureal/tools/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index e38d6d8..e0e7665 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -101,6 +101,9 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     0.0
     """
     z = x - loc1 - loc2
+    if np.isnan(z):
+        return np.nan
+
     d = abs(s1 - s2)
     s = s1 + s2
     h = 2. / (d + s)
-- 
2.43.0


From 6268d286eb46c72c21c05ca6d59840011d820679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:57 +0000
Subject: [PATCH 27/32] fix: the logistic likelihood with repeated votes no
 longer fails

The vectorised density asserts arguments of one shape, while votes with
repetitions have a third dimension that the parameters lack.
---
 sureal/subjective_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 00d2514..8f09ade 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -707,7 +707,9 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
             s1 = np.sqrt(np.tile((v_s / (np.pi / np.sqrt(3.0)))**2, (E, 1)))[:, :, None]
             s2 = np.sqrt(np.tile((a_c_e / (np.pi / np.sqrt(3.0)))**2, (S, 1)).T)[:, :, None]
             # ret = np.log(vectorized_logistic(x_es, mu1 + mu2, np.sqrt(s1**2 + s2**2)))
-            ret = np.log(vectorized_convolution_of_two_logistics(x_esr, mu1, s1, mu2, s2))
+            # all arguments must have the same shape, also with repetitions
+            ret = np.log(vectorized_convolution_of_two_logistics(
+                *np.broadcast_arrays(x_esr, mu1, s1, mu2, s2)))
 
         elif numerical_pdf == 'uniform':
             # gradient descent won't work due to zero density
-- 
2.43.0


From e1b177461ba315a512d4385aedb30ef9452306f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:57 +0000
Subject: [PATCH 28/32] fix: plots of more than eight models no longer run out
 of colours

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index ef125eb..ff606ce 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -78,7 +78,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
 
     assert len(raw_score_residue_range) == 2
 
-    colors = ['black', 'gray', 'blue', 'red'] * 2
+    colors = ['black', 'gray', 'blue', 'red'] * max(2, len(subjective_model_classes))
 
     if dataset_filepath.endswith('.py'):
         dataset = import_python_file(dataset_filepath)
-- 
2.43.0


From 6cbe5ce89cf75a9056d43b1ade71f71917b84e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 29/32] fix: splitting a dataset per subject accepts explicit
 NaN in dict-style votes

---
 sureal/dataset_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 598d2e0..c6580da 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -328,8 +328,11 @@ class RawDatasetReader(DatasetReader):
             # case, quality_score may contain nan. In this case: filter them out
             if isinstance(dis_video['os'], dict):
                 quality_score = list(filter(lambda x: not np.all(np.isnan(x)), quality_score))
+                num_votes = sum(not np.all(np.isnan(x)) for x in dis_video['os'].values())
+            else:
+                num_votes = len(dis_video['os'])
 
-            assert len(dis_video['os']) == len(quality_score)
+            assert num_votes == len(quality_score)
 
             for persubject_score in quality_score:
                 dis_video2 = copy.deepcopy(dis_video)
-- 
2.43.0


From a0337528f3d46a86a1bb6841c224d4e59e6ca466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 30/32] fix: the report of content ambiguities allows gaps in
 the content ids

---
 sureal/routine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index ff606ce..7f55419 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -646,7 +646,8 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
             for ref_video in dataset.ref_videos:
                 dict_contentid_content[ref_video['content_id']] = \
                     f"{ref_video['content_name']}"
-            result['contents'] = [dict_contentid_content[k] for k in sorted(dict_contentid_content.keys())]
+            # content ids may have gaps
+            result['contents'] = [dict_contentid_content.get(k, '') for k in range(len(result['content_ambiguity']))]
             assert len(result['contents']) == len(result['content_ambiguity'])
             if 'content_ambiguity_std' in result:
                 assert len(result['content_ambiguity']) == len(result['content_ambiguity_std'])
-- 
2.43.0


From 02b3524f5a85d0c8dc976bfd8f280c5f159ce1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 31/32] fix: the uncertainty of a content without videos is not
 negative

---
 sureal/subjective_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 8f09ade..ed49d8b 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -964,7 +964,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                     C
                 )  # sum over e:c(e)=c
                 # check: max(0, ...) leads to division by zero
-                a_c_std = 1.0 /np.sqrt(np.maximum(0., -lpp))
+                a_c_std = 1.0 /np.sqrt(np.maximum(0., 0. - lpp))
 
             elif gradient_method == 'original':
                 a_c_e = np.array([a_c[i] for i in dataset_reader.content_id_of_dis_videos])
@@ -983,7 +983,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                 order2 = sum_over_content_id(order2, dataset_reader.content_id_of_dis_videos, C)  # sum over e:c(e)=c
                 a_c_new = a_c - order1 / order2
                 a_c = a_c * (1.0 - REFRESH_RATE) + a_c_new * REFRESH_RATE
-                a_c_std = 1.0 / np.sqrt(np.maximum(0., -order2))  # calculate std of a_c
+                a_c_std = 1.0 / np.sqrt(np.maximum(0., 0. - order2))  # calculate std of a_c
 
             elif gradient_method == 'numerical':
                 axis = 1  # sum over s
@@ -1002,7 +1002,7 @@ class MaximumLikelihoodEstimationModel(SubjectiveModel):
                 order2 = sum_over_content_id(order2, dataset_reader.content_id_of_dis_videos, C)  # sum over e:c(e)=c
                 a_c_new = a_c - order1 / order2
                 a_c = a_c * (1.0 - REFRESH_RATE) + a_c_new * REFRESH_RATE
-                a_c_std = 1.0 / np.sqrt(np.maximum(0., -order2))  # calculate std of a_c
+                a_c_std = 1.0 / np.sqrt(np.maximum(0., 0. - order2))  # calculate std of a_c
 
             else:
                 assert False
-- 
2.43.0


From 84167123cc156429e665a55c494cb6827f398650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:14 +0000
Subject: [PATCH 32/32] fix: results after subject rejection name the accepted
 subjects only

---
 sureal/subjective_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index ed49d8b..ab42756 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -65,7 +65,7 @@ class SubjectiveModel(TypeVersionEnabled):
 
         try:
             observers = self.dataset_reader._get_list_observers()  # may not exist
-            model_result['observers'] = observers
+            model_result.setdefault('observers', observers)
         except AssertionError:
             pass
         except AttributeError:
@@ -1591,6 +1591,14 @@ class SubjectMLEModelProjectionSolver(SubjectiveModel):
         bic = np.log(original_num_os) * dof - 2 * loglikelihood  # bic per observation
         result['bic'] = bic
 
+        if 'observer_rejected' in ret:
+            # subjects were rejected in preprocessing: name those the results are for
+            try:
+                observers = dataset_reader._get_list_observers()  # may not exist
+            except AssertionError:
+                observers = ['observer{}'.format(i) for i in range(original_I)]
+            result['observers'] = [o for o, rejected in zip(observers, ret['observer_rejected']) if not rejected]
+
         return result
 
     @classmethod
-- 
2.43.0

