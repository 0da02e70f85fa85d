From e522e58bdbf6a3748a250d122f3c677e0cfceb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 001/114] fix: keep tuples as elements of an IndexCollection
 (they were turned into arrays, breaking membership, add and discard)

---
 alipy/index/index_collections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 016192f..94e920a 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -72,7 +72,11 @@ class IndexCollection(BaseCollection):
                 return
             if not isinstance(data, (list, np.ndarray)):
                 data = [data]
-            self._innercontainer = list(np.unique([i for i in data], axis=0))
+            if isinstance(data[0], tuple):
+                # np.unique would turn the tuples into rows of an array
+                self._innercontainer = sorted(set(data))
+            else:
+                self._innercontainer = list(np.unique([i for i in data], axis=0))
             if len(self._innercontainer) != len(data):
                 warnings.warn("There are %d same elements in the given data" % (len(data) - len(self._innercontainer)),
                               category=RepeatElementWarning,
-- 
2.43.0


From 4b3d73563b62ba16dba468d15532babf48123017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 002/114] fix: IndexCollection.add of a numpy scalar into an
 empty collection raised TypeError

---
 alipy/index/index_collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 94e920a..7379031 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -130,12 +130,12 @@ class IndexCollection(BaseCollection):
         self: object
             return self.
         """
-        if self._element_type is None:
-            self._element_type = type(value)
         # check validation
         if isinstance(value, np.generic):
             # value = np.asscalar(value)  # deprecated in numpy v1.16
             value = value.item()
+        if self._element_type is None:
+            self._element_type = type(value)
         if not isinstance(value, self._element_type):
             raise TypeError(
                 "A %s parameter is expected, but received: %s" % (str(self._element_type), str(type(value))))
-- 
2.43.0


From fd7ce86b6c7237064ec5bfb9b1783b3c85ff0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 003/114] fix: difference_update of an IndexCollection with
 itself skipped every second element

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 7379031..d7c3b7d 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -187,7 +187,7 @@ class IndexCollection(BaseCollection):
         """
         if not isinstance(other, (list, np.ndarray, IndexCollection)):
             other = [other]
-        for item in other:
+        for item in list(other):
             self.discard(item)
         return self
 
-- 
2.43.0


From 00f14fe17dc17df55a03b3ef7e5dedf6f44ab788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 004/114] fix: map_whole_index_to_train failed for a list of
 training indexes and lost the label size

---
 alipy/index/index_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index d7c3b7d..db94900 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -701,6 +701,7 @@ def map_whole_index_to_train(train_idx, index_in_whole):
     else:
         raise TypeError("index_in_whole must be one of {IndexCollection, MultiLabelIndexCollection} type.")
 
+    train_idx = np.asarray(train_idx)
     tr_ob = []
     for entry in index_in_whole:
         if ind_type == 2:
@@ -711,6 +712,6 @@ def map_whole_index_to_train(train_idx, index_in_whole):
             assert entry in train_idx
             tr_ob.append(np.argwhere(train_idx == entry)[0][0])
     if ind_type == 2:
-        return MultiLabelIndexCollection(tr_ob)
+        return MultiLabelIndexCollection(tr_ob, label_size=index_in_whole._label_size)
     else:
         return IndexCollection(tr_ob)
-- 
2.43.0


From 2ff72ff3e654c2b8c7bf6136b37c252c43d92137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 005/114] fix: IndexCollection built from a single number
 raised TypeError

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index db94900..b31c32e 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -63,7 +63,7 @@ class IndexCollection(BaseCollection):
     """
 
     def __init__(self, data=None):
-        if data is None or len(data) == 0:
+        if data is None or (not np.isscalar(data) and len(data) == 0):
             self._innercontainer = []
         else:
             if isinstance(data, IndexCollection):
-- 
2.43.0


From 2256c48df0befef4b02233976b230f2b20ff102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 006/114] fix: the sparse form of
 MultiLabelIndexCollection.get_matrix_mask was always empty

---
 alipy/index/index_collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index b31c32e..3c17e7a 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -531,7 +531,10 @@ class MultiLabelIndexCollection(IndexCollection):
                     "sparse format " + sparse_format + "is not defined. Valid format should be one of "
                                                        "[bsr_matrix, coo_matrix, csc_matrix, csr_matrix, "
                                                        "dia_matrix, dok_matrix, lil_matrix].")
-            mask = eval(sparse_format + '(mat_shape)')
+            mask = np.zeros(mat_shape)
+            for item in self._innercontainer:
+                mask[item] = fill_value
+            mask = eval(sparse_format + '(mask)')
         else:
             if fill_value == 1 or fill_value == True:
                 mask = np.zeros(mat_shape, dtype=bool)
-- 
2.43.0


From 70620fd3363346da74cf217d97eec828d7f88645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 007/114] fix: construct_by_1d_array used a removed numpy
 keyword, both construct_by_* failed for FeatureIndexCollection, and an
 all-known or all-unknown mask was rejected

---
 alipy/index/index_collections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 3c17e7a..4da92b0 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -581,8 +581,8 @@ class MultiLabelIndexCollection(IndexCollection):
         row major: [4, 11, 5]
         """
         assert len(label_mat_shape) == 2
-        row, col = np.unravel_index(array, dims=label_mat_shape, order=order)
-        return cls(data=[(row[i], col[i]) for i in range(len(row))], label_size=label_mat_shape[1])
+        row, col = np.unravel_index(array, shape=label_mat_shape, order=order)
+        return cls([(row[i], col[i]) for i in range(len(row))], label_mat_shape[1])
 
     @classmethod
     def construct_by_element_mask(cls, mask):
@@ -613,13 +613,13 @@ class MultiLabelIndexCollection(IndexCollection):
         """
         mask = np.asarray(mask)
         ue = np.unique(mask)
-        if not (len(mask.shape) == 2 and len(ue) == 2 and 0 in ue and 1 in ue):
+        if not (len(mask.shape) == 2 and np.all((ue == 0) | (ue == 1))):
             raise ValueError("The mask matrix should be a 2d array, and there must be only "
                              "1 and 0 in the matrix, in which, 1 means the corresponding "
                              "element is known, and will be added to the MultiLabelIndexCollection container.")
 
         nz_row, nz_col = np.nonzero(mask)
-        return cls(data=[(nz_row[i], nz_col[i]) for i in range(len(nz_row))], label_size=mask.shape[1])
+        return cls([(nz_row[i], nz_col[i]) for i in range(len(nz_row))], mask.shape[1])
 
 
 class FeatureIndexCollection(MultiLabelIndexCollection):
-- 
2.43.0


From d086f61efe87f83aa258f91948c68f2c7c3a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 008/114] fix: a copied MultiLabelIndexCollection held a list
 instead of a set, so adding to it failed

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 4da92b0..c87ccb0 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -285,7 +285,7 @@ class MultiLabelIndexCollection(IndexCollection):
             self._label_size = label_size
         else:
             if isinstance(data, MultiLabelIndexCollection):
-                self._innercontainer = copy.deepcopy(data.index)
+                self._innercontainer = set(copy.deepcopy(data.index))
                 self._label_size = data._label_size
                 return
             # check given indexes
-- 
2.43.0


From 19cb2197a30927d59a9cbfd1e54006eed06ef0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 009/114] fix: MultiLabelIndexCollection.add/discard of a key
 with several labels stored or missed the key itself instead of its pairs, and
 negative labels were accepted

---
 alipy/index/index_collections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index c87ccb0..7104183 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -336,10 +336,11 @@ class MultiLabelIndexCollection(IndexCollection):
         elif len(value) == 2:
             if isinstance(value[1], collections.Iterable):
                 for item in value[1]:
-                    if item >= self._label_size:
+                    if not 0 <= item < self._label_size:
                         raise ValueError("Index %s is out of bound %s" % (str(item), str(self._label_size)))
+                return self.update([value])
             else:
-                if value[1] >= self._label_size:
+                if not 0 <= value[1] < self._label_size:
                     raise ValueError("Index %s is out of bound %s" % (str(value[1]), str(self._label_size)))
         else:
             raise ValueError("A tuple with 1 or 2 elements is expected, but received: %s" % str(value))
@@ -371,6 +372,8 @@ class MultiLabelIndexCollection(IndexCollection):
         if len(value) == 1:
             value = [(value[0], i) for i in range(self._label_size)]
             return self.difference_update(value)
+        if len(value) == 2 and isinstance(value[1], collections.Iterable):
+            return self.difference_update([value])
         if value not in self._innercontainer:
             warnings.warn("Element %s to discard is not in the collection, skip." % (value.__str__()),
                           category=InexistentElementWarning,
-- 
2.43.0


From f907534e60bb06c4ff8e792d758f331102af1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 010/114] fix: the label size could not be inferred from
 indexes mixing single labels and label lists

---
 alipy/index/multi_label_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/multi_label_tools.py b/alipy/index/multi_label_tools.py
index 22fdb34..60014d4 100644
--- a/alipy/index/multi_label_tools.py
+++ b/alipy/index/multi_label_tools.py
@@ -52,7 +52,7 @@ def infer_label_size_multilabel(index_arr, check_arr=True):
         index_arr = check_index_multilabel(index_arr)
     data_len = np.array([len(i) for i in index_arr])
     if np.any(data_len == 2):
-        label_size = np.max([i[1] for i in index_arr if len(i) == 2]) + 1
+        label_size = max([np.max(i[1]) for i in index_arr if len(i) == 2]) + 1
     elif np.all(data_len == 1):
         raise Exception(
             "Label_size can not be induced from fully labeled set, label_size must be provided.")
-- 
2.43.0


From ad74fec7806f44ae2de7348f9ef9f01a269dc6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 011/114] fix: split with all_class looked up labels by
 instance name instead of position

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index edb506b..2dab5ee 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -141,7 +141,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 cutpointlabel = int(round(initial_label_rate * len(tp_train)))
                 if cutpointlabel <= 1:
                     cutpointlabel = 1
-                label_id = tp_train[0:cutpointlabel]
+                label_id = rp[0:cutpointlabel]
                 if y.ndim == 1:
                     if len(np.unique(y[label_id])) == label_num:
                         break
-- 
2.43.0


From 2dd16c3b2205c23998a2d843f9d8c9696589f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 012/114] fix: feature split kept too few known entries after a
 redraw

---
 alipy/data_manipulate/al_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 2dab5ee..fe7a5d4 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -254,7 +254,8 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     tp_train = instance_indexes[rp[0:cutpoint]]
                     # split label & unlabel
                     train_size = len(tp_train)
-                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size)))
+                    lab_ind = randperm((0, train_size * data_shape[1] - 1),
+                                       int(round(initial_label_rate * train_size * data_shape[1])))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             unlab_ind = set(np.arange(train_size * data_shape[1]))
-- 
2.43.0


From 51838e4a704bc7f50b3aef3386a23d36823128f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 013/114] fix: split with all_class looped forever when
 rounding left fewer labeled instances than classes

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index fe7a5d4..5714280 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -128,7 +128,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 label_num = len(np.unique(y))
             else:
                 label_num = y.shape[1]
-            if round((1 - test_ratio) * initial_label_rate * number_of_instance) < label_num:
+            if round(initial_label_rate * int(round((1 - test_ratio) * number_of_instance))) < label_num:
                 raise ValueError(
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
-- 
2.43.0


From 9d2dd5f4704da09c1bed9ec8d5c3324cdf9d8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 014/114] fix: all_class splits of -1/1 labels accepted folds
 without a positive instance of a label, or looped forever

---
 alipy/data_manipulate/al_split.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 5714280..e4a8884 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -146,8 +146,8 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                     if len(np.unique(y[label_id])) == label_num:
                         break
                 else:
-                    temp = np.sum(y[label_id], axis=0)
-                    if not np.any(temp == 0):
+                    temp = (y[label_id] > 0).sum(axis=0)
+                    if not np.any((temp == 0) & ((y > 0).sum(axis=0) > 0)):
                         break
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
@@ -277,14 +277,14 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                         "split will contain at least one instance-feature pair for each class.")
                 while 1:
                     label_id = tp_train[0:cutpoint_lab]
-                    temp = np.sum(data_matrix[label_id], axis=0)
-                    if not np.any(temp == 0):
+                    temp = (data_matrix[label_id] > 0).sum(axis=0)
+                    if not np.any((temp == 0) & ((data_matrix > 0).sum(axis=0) > 0)):
                         break
                     rp = randperm(data_shape[0] - 1)
                     cutpoint = int(round((1 - test_ratio) * len(rp)))
                     tp_train = instance_indexes[rp[0:cutpoint]]
 
-                    cutpoint_lab = int(round(initial_label_rate * len(tp_train)))
+                    cutpoint_lab = max(1, int(round(initial_label_rate * len(tp_train))))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             label_idx.append([(i,) for i in tp_train[0:cutpoint_lab]])
-- 
2.43.0


From 4d40a9bb0cdbeb9f5898f6219e343de07b7b99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 015/114] fix: splits saved with one fold, instance names,
 unequal folds or multi-label keys could not be saved or loaded back, or were
 mixed with an earlier split

---
 alipy/data_manipulate/al_split.py | 39 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index e4a8884..7fd4ec5 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -432,14 +432,13 @@ def split_load(path):
         raise Exception("A path to a directory is expected.")
 
     ret_arr = []
-    for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt']:
-        if not os.path.exists(os.path.join(saving_path, fname)):
-            if os.path.exists(os.path.join(saving_path, fname.split()[0] + '.npy')):
-                ret_arr.append(np.load(os.path.join(saving_path, fname.split()[0] + '.npy')))
-            else:
-                ret_arr.append(None)
+    for fname in ['train_idx', 'test_idx', 'label_idx', 'unlabel_idx']:
+        if os.path.exists(os.path.join(saving_path, fname + '.txt')):
+            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname + '.txt'), dtype=int, ndmin=2))
+        elif os.path.exists(os.path.join(saving_path, fname + '.npy')):
+            ret_arr.append(np.load(os.path.join(saving_path, fname + '.npy'), allow_pickle=True).tolist())
         else:
-            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int))
+            ret_arr.append(None)
     return ret_arr[0], ret_arr[1], ret_arr[2], ret_arr[3]
 
 
@@ -461,13 +460,23 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
 
     saving_path = os.path.abspath(path)
     if os.path.isdir(saving_path):
-        np.savetxt(os.path.join(saving_path, 'train_idx.txt'), train_idx, fmt='%d')
-        np.savetxt(os.path.join(saving_path, 'test_idx.txt'), test_idx, fmt='%d')
-        if len(np.shape(label_idx)) == 2:
-            np.savetxt(os.path.join(saving_path, 'label_idx.txt'), label_idx, fmt='%d')
-            np.savetxt(os.path.join(saving_path, 'unlabel_idx.txt'), unlabel_idx, fmt='%d')
-        else:
-            np.save(os.path.join(saving_path, 'label_idx.npy'), label_idx)
-            np.save(os.path.join(saving_path, 'unlabel_idx.npy'), unlabel_idx)
+        for fname, idx in [('train_idx', train_idx), ('test_idx', test_idx),
+                           ('label_idx', label_idx), ('unlabel_idx', unlabel_idx)]:
+            txt_path = os.path.join(saving_path, fname + '.txt')
+            npy_path = os.path.join(saving_path, fname + '.npy')
+            # a text file can only hold a non-empty matrix of ints
+            if len(set([len(fold) for fold in idx])) == 1 and len(idx[0]) > 0 and \
+                    all([np.ndim(item) == 0 and np.issubdtype(type(item), np.integer) for fold in idx for item in fold]):
+                np.savetxt(txt_path, idx, fmt='%d')
+                stale_path = npy_path
+            else:
+                folds = np.empty(len(idx), dtype=object)
+                for i, fold in enumerate(idx):
+                    folds[i] = list(fold)
+                np.save(npy_path, folds)
+                stale_path = txt_path
+            # the file left by an earlier split in the other format
+            if os.path.exists(stale_path):
+                os.remove(stale_path)
     else:
         raise Exception("A path to a directory is expected.")
-- 
2.43.0


From 2f44bc6dece5c3c94e346653c8cddf4f898c77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 016/114] fix: StandardScale divided by the variance instead of
 the standard deviation, and by zero for constant features

---
 alipy/data_manipulate/datapreprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index ffc98f1..0d6ac62 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -87,7 +87,7 @@ def StandardScale(X):
     
     The transformation is given by::
 
-        x_StdS = (X - X.mean(axis=0)) / X.var(axis=0)
+        x_StdS = (X - X.mean(axis=0)) / sqrt(X.var(axis=0))
 
     Parameters
     ----------
@@ -111,7 +111,7 @@ def StandardScale(X):
         raise TypeError("X array does not has mean or var methods")
     
     data_mean = X.mean(axis=0)
-    data_var = X.var(axis=0)
-    x_StdS = (X - data_mean) / data_var
+    data_var = _handle_zeros_in_scale(X.var(axis=0))
+    x_StdS = (X - data_mean) / np.sqrt(data_var)
 
     return x_StdS
-- 
2.43.0


From ef7736637cc677a9f36d9391761e53f6db37685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 017/114] fix: nlargestarg dropped elements when asked for more
 than the array holds

---
 alipy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 52da0ef..b256cea 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -132,7 +132,7 @@ def nlargestarg(a, n):
     assert (n > 0)
     argret = np.argsort(a)
     # ascent
-    return argret[argret.size - n:]
+    return argret[max(argret.size - n, 0):]
 
 
 def nsmallestarg(a, n):
-- 
2.43.0


From 8638a49417e243407c2a4dc9e4e55daf1df6d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 018/114] fix: an unknown index or example raised a string
 formatting TypeError instead of the intended KeyError

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b0c8d6c..327f184 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -249,7 +249,7 @@ class Oracle(interface.BaseVirtualOracle):
         -------
 
         """
-        raise KeyError("%s is not in the " + dict_name + " of this oracle" % str(key))
+        raise KeyError("%s is not in the %s of this oracle" % (str(key), dict_name))
 
     def __repr__(self):
         return str(self._ind2all)
-- 
2.43.0


From 31fc111b4d025a13795caebb9b5af59c86196bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 019/114] fix: multi-label oracle queried by example looked up
 the feature vector itself as an index

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 327f184..226a311 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -506,9 +506,9 @@ class OracleQueryMultiLabel(Oracle):
             # fetch data
             if example_fea in self._exa2ind.keys():
                 if k_len == 1:
-                    q_id.append((example_fea,))
+                    q_id.append((self._exa2ind[example_fea],))
                 else:
-                    q_id.append((example_fea, k[1]))
+                    q_id.append((self._exa2ind[example_fea], k[1]))
             else:
                 self._do_missing(example_fea, 'instance pool')
         return self.query_by_index(q_id)
-- 
2.43.0


From 029ced3cce1f18ef254577a10259cd6294e9afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 020/114] fix: multi-label oracle could not answer when its
 costs were given as lists

---
 alipy/oracle/oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 226a311..b887522 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -342,6 +342,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
+                cost = np.asarray(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
@@ -390,7 +391,7 @@ class OracleQueryMultiLabel(Oracle):
                 raise ValueError(
                     "Different dimension of cost found when adding entries: %s is expected but received: %s" %
                     (str(self._label_shape[1]), str(len(cost))))
-            self._ind2all[index] = (np.array(label), cost)
+            self._ind2all[index] = (np.array(label), np.array(cost))
         else:
             self._ind2all[index] = np.array(label)
 
-- 
2.43.0


From 8436dfdab2bda1f58fa08468199723a878e2a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 021/114] fix: Oracles recorded a query with costs of different
 lengths and then raised without adding its cost

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b887522..662c276 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -579,7 +579,7 @@ class Oracles:
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
         self._update_query_history([oracle_name], [result], index_for_querying)
-        self.cost_inall += np.sum(np.asarray(result[1]).flatten())
+        self.cost_inall += np.sum([np.sum(cost) for cost in result[1]])
         return result
 
     def query_from_s(self, index_for_querying, oracles_name=None):
@@ -610,7 +610,7 @@ class Oracles:
             results.append(self._oracle_dict[name].query_by_index(index_for_querying))
 
         self._update_query_history(oracles_name, results, index_for_querying)
-        self.cost_inall += np.sum(np.array([result[1] for result in results]).flatten())
+        self.cost_inall += np.sum([np.sum(cost) for result in results for cost in result[1]])
         return results
 
     def get_oracle(self, oracle_name):
-- 
2.43.0


From 51cec86ca6503987693452a108ccbc220a1c37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 022/114] fix: ElementRepository keeps one entry per index when
 an index or an example is added twice

---
 alipy/oracle/knowledge_repository.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5e168ed..d75b894 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -117,6 +117,8 @@ class ElementRepository(BaseRepository):
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             example = tuple(example)
+            if select_index in self._ind2exa:
+                self._forget_example(select_index)
             self._exa2ind[example] = select_index
             self._ind2exa[select_index] = example
 
@@ -124,10 +126,20 @@ class ElementRepository(BaseRepository):
             self.cost_inall += np.sum(cost)
             self._cost_arr.append(cost)
 
+        if select_index not in self._ind2label:
+            self._indexes.append(select_index)
         self._ind2label[select_index] = label
-        self._indexes.append(select_index)
         return self
 
+    def _forget_example(self, index):
+        """Remove the example of an index. Another index may hold the same example."""
+        example = self._ind2exa.pop(index)
+        if self._exa2ind[example] == index:
+            self._exa2ind.pop(example)
+            for ind in self._indexes:
+                if self._ind2exa.get(ind) == example:
+                    self._exa2ind[example] = ind
+
     def discard(self, index=None, example=None):
         """Discard element either by index or example.
 
@@ -152,7 +164,7 @@ class ElementRepository(BaseRepository):
             self._indexes.remove(index)
             self._ind2label.pop(index)
             if self._instance_flag:
-                self._exa2ind.pop(self._ind2exa.pop(index))
+                self._forget_example(index)
 
         if example is not None:
             if not self._instance_flag:
@@ -166,8 +178,7 @@ class ElementRepository(BaseRepository):
                     return self
                 ind = self._exa2ind[example]
                 self._indexes.remove(ind)
-                self._exa2ind.pop(example)
-                self._ind2exa.pop(ind)
+                self._forget_example(ind)
                 self._ind2label.pop(ind)
         return self
 
-- 
2.43.0


From 37a255716b15ef430b090d84314d40ce558c6fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 023/114] fix: a cleared repository can be used again (clear
 raised or left None arrays behind)

---
 alipy/oracle/knowledge_repository.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index d75b894..eff252a 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -303,9 +303,10 @@ class ElementRepository(BaseRepository):
     def clear(self):
         """Clear this container."""
         self._indexes.clear()
-        self._exa2ind.clear()
+        if self._instance_flag:
+            self._exa2ind.clear()
+            self._ind2exa.clear()
         self._ind2label.clear()
-        self._indexes.clear()
         self._instance_flag = False
         self.cost_inall = 0
         self._cost_arr = []
@@ -589,8 +590,8 @@ class MatrixRepository(BaseRepository):
         self.num_of_queries = 0
         self._instance_flag = False
         self._X = None
-        self._y = None
-        self._indexes = None
+        self._y = self._y[:0]
+        self._indexes = self._indexes[:0]
         self._query_history.clear()
 
     def _update_query_history(self, labels, indexes, cost):
-- 
2.43.0


From 8654cf81a5c1f08d30e909387040add9af8c8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 024/114] fix: MatrixRepository is left unchanged when an added
 entry is rejected

---
 alipy/oracle/knowledge_repository.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index eff252a..c39de8b 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -391,6 +391,9 @@ class MatrixRepository(BaseRepository):
             Feature vector of an instance.
         """
         # check validation
+        if self._instance_flag and example is None:
+            raise Exception("This repository has the instance information,"
+                            "must provide example parameter when adding entry")
         if select_index in self._indexes:
             warnings.warn("Repeated index is found when adding element to knowledge repository. Skip this item",
                           category=RepeatElementWarning)
@@ -399,19 +402,16 @@ class MatrixRepository(BaseRepository):
             if hasattr(label, '__len__'):
                 raise TypeError("The initialized label array only have 1 dimension, "
                                 "but received an array like label: %s." % str(label))
-            self._y = np.append(self._y, [label])
+            new_y = np.append(self._y, [label])
         else:
             # this operation will check the validity automatically.
-            self._y = np.append(self._y, [label], axis=0)
+            new_y = np.append(self._y, [label], axis=0)
+        if self._instance_flag:
+            self._X = np.append(self._X, [example], axis=0)
+        self._y = new_y
         self._indexes = np.append(self._indexes, select_index)
         self._cost_arr.append(cost)
         self.cost_inall += np.sum(cost) if cost is not None else 0
-        if self._instance_flag:
-            if example is None:
-                raise Exception("This repository has the instance information,"
-                                "must provide example parameter when adding entry")
-            else:
-                self._X = np.append(self._X, [example], axis=0)
         return self
 
     def update_query(self, labels, indexes, cost=None, examples=None):
-- 
2.43.0


From cee46959ab89f1e3e884bbd64c017443b6bc56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 025/114] fix: MatrixRepository accepts tuple indexes and
 retrieves single, position-0 and missing indexes

---
 alipy/oracle/knowledge_repository.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index c39de8b..2a0d5d6 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -357,7 +357,7 @@ class MatrixRepository(BaseRepository):
             raise ValueError("Different length of the given parameters found.")
 
         self._y = check_array(labels, ensure_2d=False, dtype=None)
-        self._indexes = np.asarray(indexes)
+        self._indexes = list(indexes)  # an index can be a tuple
         self._instance_flag = False if examples is None else True
         if self._instance_flag:
             self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C')
@@ -409,7 +409,7 @@ class MatrixRepository(BaseRepository):
         if self._instance_flag:
             self._X = np.append(self._X, [example], axis=0)
         self._y = new_y
-        self._indexes = np.append(self._indexes, select_index)
+        self._indexes.append(select_index)
         self._cost_arr.append(cost)
         self.cost_inall += np.sum(cost) if cost is not None else 0
         return self
@@ -469,7 +469,7 @@ class MatrixRepository(BaseRepository):
                               category=ValidityWarning,
                               stacklevel=3)
                 return self
-            ind = np.argwhere(self._indexes == index)
+            ind = self._indexes.index(index)
 
         if example is not None:
             if not self._instance_flag:
@@ -484,7 +484,7 @@ class MatrixRepository(BaseRepository):
         mask = np.ones(len(self._indexes), dtype=bool)
         mask[ind] = False
         self._y = self._y[mask]
-        self._indexes = self._indexes[mask]
+        self._indexes.pop(ind)
         if self._instance_flag:
             self._X = self._X[mask]
         return self
@@ -507,14 +507,15 @@ class MatrixRepository(BaseRepository):
             The retrieved labels.
         """
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
-            ind = np.argwhere(self._indexes == indexes)  # will return empty array if not found.
-            if not ind:
-                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes),
+            indexes = [indexes]
+        ind = []
+        for k in indexes:
+            if k in self._indexes:
+                ind.append(self._indexes.index(k))
+            else:
+                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(k),
                               category=ValidityWarning)
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
-        else:
-            ind = [np.argwhere(self._indexes == indexes[i]).flatten()[0] for i in range(len(indexes))]
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
+        return self._X[ind,] if self._instance_flag else None, self._y[ind,]
 
     def _find_one_example(self, example):
         """Find the index of the given example in the repository."""
-- 
2.43.0


From 299272f5405d696deacc659d2c2c7971a7a5e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 026/114] fix: StateIO gives the labeled and unlabeled
 multi-label lists one label size (recovery raised or dropped labels)

---
 alipy/experiment/state_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index cba4882..2d107ef 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -25,7 +25,7 @@ import prettytable as pt
 
 from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
-from ..index.multi_label_tools import check_index_multilabel
+from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
 
 __all__ = ['StateIO',
@@ -101,8 +101,10 @@ class StateIO:
             try:
                 check_index_multilabel(init_L)
                 check_index_multilabel(init_U)
-                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U))
-                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L))
+                # both sets share one label space
+                label_size = infer_label_size_multilabel(list(init_L) + list(init_U))
+                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U, label_size=label_size))
+                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L, label_size=label_size))
             except TypeError:
                 self.init_U = copy.deepcopy(IndexCollection(init_U))
                 self.init_L = copy.deepcopy(IndexCollection(init_L))
-- 
2.43.0


From 0d7b14ea5ebb99eb7ab8f2477538911b5701b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 027/114] fix: StateIO.add_state accepts the documented dict
 (it was stored raw and then raised)

---
 alipy/experiment/state_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 2d107ef..e5c5b46 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -176,6 +176,11 @@ class StateIO:
         if not isinstance(state, State):
             assert isinstance(state, dict), "state must be dict or State object."
             assert 'select_index' in state and 'queried_info' in state and 'performance' in state, "The dict must contain the following keys: ['select_index', 'queried_info', 'performance']"
+            info = state
+            state = State(select_index=info['select_index'], performance=info['performance'])
+            for key in info:
+                if key not in ('select_index', 'performance'):
+                    state.add_element(key, info[key])
         self.__state_list.append(copy.deepcopy(state))
         self.__update_info()
 
-- 
2.43.0


From 2355bb02cfd26b766c92ffb6ca903ecb4c13cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 028/114] fix: StateIO.pop and recover_workspace keep the
 accumulated cost and query count in step; pop() works

---
 alipy/experiment/state_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index e5c5b46..9efc501 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -226,7 +226,9 @@ class StateIO:
 
     def pop(self, i=None):
         """remove and return item at index (default last)."""
-        return self.__state_list.pop(i)
+        state = self.__state_list.pop(-1 if i is None else i)
+        self.refresh_info()
+        return state
 
     def recover_workspace(self, iteration=None):
         """Recover workspace after $iteration$ querying.
@@ -263,6 +265,7 @@ class StateIO:
             work_U.difference_update(state.get_value('select_index'))
             work_L.update(state.get_value('select_index'))
         self.__state_list = self.__state_list[0:iteration]
+        self.refresh_info()
         return copy.copy(self.train_idx), copy.copy(self.test_idx), copy.deepcopy(work_L), copy.deepcopy(work_U)
 
     def get_workspace(self, iteration=None):
-- 
2.43.0


From 52428588107a0fa262013dba3641baf65d58b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 029/114] fix: check_batch_size is true for a log with a single
 state

---
 alipy/experiment/state_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 9efc501..c4c7d55 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -217,7 +217,7 @@ class StateIO:
             Whether all the states have the same batch size.
         """
         ind_uni = np.unique(
-            [self.__state_list[i].batch_size for i in range(len(self.__state_list) - 1)], axis=0)
+            [state.batch_size for state in (self.__state_list[:-1] or self.__state_list)], axis=0)
         if len(ind_uni) == 1:
             self.batch_size = ind_uni[0]
             return True
-- 
2.43.0


From b769bbadaf590a188aba83f70a228397cce2823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 030/114] fix: percent_of_unlabel stops instead of dividing by
 zero when the initial pool is empty

---
 alipy/experiment/stopping_criteria.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/stopping_criteria.py b/alipy/experiment/stopping_criteria.py
index c691489..b53fead 100644
--- a/alipy/experiment/stopping_criteria.py
+++ b/alipy/experiment/stopping_criteria.py
@@ -124,7 +124,8 @@ class StoppingCriteria:
         elif self._stopping_criteria == 'cost_limit':
             self._accum_cost = saver.cost_inall
         elif self._stopping_criteria == 'percent_of_unlabel':
-            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex)
+            # an initially empty pool is completely labeled
+            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex) if len(ini_Uindex) > 0 else 1
         return self
 
     def reset(self):
-- 
2.43.0


From a77fd16db4bc769578cf353eaa90d93ead84d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 031/114] fix: zero_one_loss(normalize=False) returns the
 (weighted) number of misclassifications

---
 alipy/metrics/performance.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 6864862..38013c8 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -207,16 +207,20 @@ def accuracy_score(y_true, y_pred, sample_weight=None):
     -------
     score : float
     """
+    score = _correct_predictions(y_true, y_pred, sample_weight)
+    return np.average(score, weights=sample_weight)
+
+
+def _correct_predictions(y_true, y_pred, sample_weight=None):
+    """Whether each instance is correctly predicted (all of its labels, for multilabel)."""
     y_type, y_true, y_pred = _check_targets(y_true, y_pred)
     check_consistent_length(y_true, y_pred, sample_weight)
 
     if y_type.startswith('multilabel'):
     
         differing_labels = np.diff((y_true - y_pred).indptr)
-        score = differing_labels == 0
-    else:
-        score = y_true == y_pred
-    return np.average(score, weights=sample_weight)
+        return differing_labels == 0
+    return y_true == y_pred
 
 
 def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
@@ -249,16 +253,10 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
         If ``normalize == True``, return the fraction of misclassifications
         (float), else it returns the number of misclassifications (int).
     """
-    score = accuracy_score(y_true, y_pred,sample_weight=sample_weight)
-
     if normalize:
-        return 1 - score
-    else:
-        if sample_weight is not None:
-            n_samples = np.sum(sample_weight)
-        else:
-            n_samples = _num_samples(y_true)
-        return n_samples - score
+        return 1 - accuracy_score(y_true, y_pred, sample_weight=sample_weight)
+    error = np.logical_not(_correct_predictions(y_true, y_pred, sample_weight))
+    return np.sum(error) if sample_weight is None else np.dot(error, sample_weight)
 
 
 # def f1_score(y_true, y_pred, pos_label=1, sample_weight=None):
-- 
2.43.0


From 838d400357e5c318b503d4daf27d3f4f5491d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 032/114] fix: hamming_loss squeezes column vectors instead of
 comparing every pair of instances

---
 alipy/metrics/performance.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 38013c8..37a80fc 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -512,13 +512,11 @@ def hamming_loss(y_true, y_pred):
         Return the average Hamming loss between element of ``y_true`` and
         ``y_pred``.
     """
-    y_type, _, _ = _check_targets(y_true, y_pred)
+    y_type, y_true, y_pred = _check_targets(y_true, y_pred)
     check_consistent_length(y_true, y_pred)
-    y_true = np.asarray(y_true)
-    y_pred = np.asarray(y_pred)
     if y_type.startswith('multilabel'):
-        num_samples, num_classses = np.array(y_true).shape
-        n_differences = np.sum(y_true != y_pred)
+        num_samples, num_classses = y_true.shape
+        n_differences = (y_true - y_pred).count_nonzero()
         return n_differences / (num_samples * num_classses)
     elif y_type in ["binary", "multiclass"]:
         return np.sum(y_true != y_pred) / y_true.shape[0]
-- 
2.43.0


From e85cf9491fece86ed6429d1a861c37ec2db6c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 033/114] fix: classification and ranking metrics accept the
 documented sparse label matrices

---
 alipy/metrics/performance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 37a80fc..2de1790 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -9,7 +9,7 @@ Implement classical methods
 from __future__ import division
 
 import numpy as np
-from scipy.sparse import csr_matrix
+from scipy.sparse import csr_matrix, issparse
 from scipy.stats import rankdata
 from sklearn.metrics import f1_score
  
@@ -64,7 +64,7 @@ def check_consistent_length(*arrays):
 def type_of_target(y):
     """Determine the type of data indicated by the target.
     """
-    y = np.asarray(y)
+    y = y.toarray() if issparse(y) else np.asarray(y)
     if(len(np.unique(y)) <= 2):
         if(y.ndim >= 2 and len(y[0]) > 1):
             return 'multilabel'
@@ -174,8 +174,8 @@ def _check_targets(y_true, y_pred):
 
     if y_type in ["binary", "multiclass"]:
         #Ravel column or 1d numpy array
-        y_true = np.ravel(y_true)
-        y_pred = np.ravel(y_pred)
+        y_true = np.ravel(y_true.toarray() if issparse(y_true) else y_true)
+        y_pred = np.ravel(y_pred.toarray() if issparse(y_pred) else y_pred)
         if y_type == "binary":
             unique_values = np.union1d(y_true, y_pred)
             if len(unique_values) > 2:
-- 
2.43.0


From 827d3e0376d60dae4be27ccc691ad282a3eabe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 034/114] fix: label_ranking_average_precision_score weights
 the instances with all or no labels too

---
 alipy/metrics/performance.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 2de1790..3a3cb0c 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -708,13 +708,12 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
         if (relevant.size == 0 or relevant.size == n_labels):
             # If all labels are relevant or unrelevant, the score is also
             # equal to 1. The label ranking has no meaning.
-            out += 1.
-            continue
-
-        scores_i = y_score[i]
-        rank = rankdata(scores_i, 'max')[relevant]
-        L = rankdata(scores_i[relevant], 'max')
-        aux = (L / rank).mean()
+            aux = 1.
+        else:
+            scores_i = y_score[i]
+            rank = rankdata(scores_i, 'max')[relevant]
+            L = rankdata(scores_i[relevant], 'max')
+            aux = (L / rank).mean()
         if sample_weight is not None:
             aux = aux * sample_weight[i]
         out += aux
-- 
2.43.0


From efc0a99a0e13b18d6f88adfd3619d2d01d42ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 035/114] fix: one_error is the fraction of instances whose
 top-ranked label is wrong (it counted matching label sums)

---
 alipy/metrics/performance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 3a3cb0c..f18546b 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -526,7 +526,9 @@ def hamming_loss(y_true, y_pred):
 
 def one_error(y_true, y_pred, sample_weight=None):
     '''
-        Compute the one_error,similar to 0/1-loss.
+        Compute the one_error: the fraction of instances whose top-ranked label
+        is not one of their labels.
+
     Parameters
     ----------
     y_true : array, shape = [n_samples] or [n_samples, n_classes]
@@ -549,9 +551,11 @@ def one_error(y_true, y_pred, sample_weight=None):
     n_samples, n_labels = y_true.shape
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
-    n_differents = np.sum((y_true - y_pred), axis=1) == 0
-
-    return n_differents.sum() / n_samples
+    if np.shape(y_pred) != y_true.shape:
+        raise ValueError("y_true and y_pred have different shape")
+    # the top-ranked label of an instance is not one of its labels
+    error = np.asarray(y_true)[np.arange(n_samples), np.argmax(y_pred, axis=1)] != 1
+    return np.average(error, weights=sample_weight)
 
 
 def coverage_error(y_true, y_score, sample_weight=None):
-- 
2.43.0


From 0ee44b99ff41799dd4eab7e47f08ca779dad37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:42 +0000
Subject: [PATCH 036/114] fix: ROC and precision-recall metrics use
 sample_weight (it was ignored) and one threshold per distinct score

---
 alipy/metrics/performance.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index f18546b..24a56f8 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -293,7 +293,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
 #     return 2 * (p * r) / (p + r)
 
 
-def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
+def get_fps_tps_thresholds(y_true, y_score, pos_label=None, sample_weight=None):
     '''
     Calculate true and false positives per binary classification threshold.
 
@@ -328,7 +328,7 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
     thresholds : array, shape = [n_thresholds]
         Decreasing score values.
     '''
-    check_consistent_length(y_true, y_score)
+    check_consistent_length(y_true, y_score, sample_weight)
     classes = np.unique(y_true)
     if (pos_label is None and
         not (np.array_equal(classes, [0, 1]) or
@@ -339,22 +339,16 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
         raise ValueError("Data is not binary and pos_label is not specified")
     elif pos_label is None:
         pos_label = 1.
-    y_true = (y_true == pos_label)
+    y_true = (np.asarray(y_true) == pos_label)
     desc_score_indices = np.argsort(y_score, kind="mergesort")[::-1]
-    thresholds = np.array(y_score)[desc_score_indices]
     y_true = np.array(y_true)[desc_score_indices]
     y_score = np.array(y_score)[desc_score_indices]
-    tps = []
-    fps = [] 
-    for threshold in thresholds:
-        y_prob = [1 if i >= threshold else 0 for i in y_score]
-        result = [i == j for i, j in zip(y_true, y_prob)]
-        postive = [i == 1 for i in y_prob]
-        tp = [i and j for i, j in zip(result, postive)]
-        fp = [(not i) and j for i, j in zip(result, postive)]
-        tps.append(tp.count(True))
-        fps.append(fp.count(True))
-    return np.array(fps), np.array(tps), thresholds
+    weight = 1 if sample_weight is None else np.array(sample_weight)[desc_score_indices]
+    # the last position of every distinct score
+    threshold_idxs = np.r_[np.where(np.diff(y_score))[0], y_true.size - 1]
+    tps = np.cumsum(y_true * weight)[threshold_idxs]
+    fps = np.cumsum((1 - y_true) * weight)[threshold_idxs]
+    return fps, tps, y_score[threshold_idxs]
 
 
 def precision_recall_curve(y_true, y_score, pos_label=None,
@@ -390,7 +384,8 @@ def precision_recall_curve(y_true, y_score, pos_label=None,
         Increasing thresholds on the decision function used to compute
         precision and recall.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label,
+                                                  sample_weight=sample_weight)
 
     precision = tps / (tps + fps)
     precision[np.isnan(precision)] = 0
@@ -436,7 +431,8 @@ def roc_curve(y_true, y_score, pos_label=None, sample_weight=None):
         fpr and tpr. `thresholds[0]` represents no instances being predicted
         and is arbitrarily set to `max(y_score) + 1`.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label,
+                                                  sample_weight=sample_weight)
 
     if np.array(tps).size == 0 or fps[0] != 0 or tps[0] != 0:
         # Add an extra threshold position if necessary
@@ -483,8 +479,8 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     -------
     auc : float
     """
-    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=None)
-    return _auc(fpr, tpr)    
+    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
+    return _auc(fpr, tpr)
 
 
 def hamming_loss(y_true, y_pred):
-- 
2.43.0


From 8fc7c6d54a60a03421169219040ee375edbca538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:42 +0000
Subject: [PATCH 037/114] fix: roc_auc_score accepts the documented [n_samples,
 n_classes] label indicators

---
 alipy/metrics/performance.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 24a56f8..9cd84fd 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -478,7 +478,14 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     Returns
     -------
     auc : float
+        For label indicators, the mean over the classes.
     """
+    if np.ndim(y_true) == 2:
+        y_true, y_score = np.asarray(y_true), np.asarray(y_score)
+        if y_true.shape != y_score.shape:
+            raise ValueError("y_true and y_score have different shape")
+        return np.mean([roc_auc_score(y_true[:, j], y_score[:, j], pos_label, sample_weight)
+                        for j in range(y_true.shape[1])])
     fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
     return _auc(fpr, tpr)
 
-- 
2.43.0


From ff0ebe7daba4d55ac2a828d08fc9917b39f4d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 038/114] fix: micro_auc_score pools all entries, credits ties
 half and uses sample_weight (it averaged classes and divided by zero)

---
 alipy/metrics/performance.py | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 9cd84fd..a681cf7 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -809,38 +809,10 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
             not (y_type == "binary" and y_true.ndim == 2)):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    test_data_num = y_score.shape[0]
-    class_num = y_score.shape[1]
-    P = []
-    N = []
-    labels_size = []
-    not_labels_size = []
-    AUC = 0
-    for i in range(class_num):
-        P.append([])
-        N.append([])
-    
-    for i in range(test_data_num):
-            for j in range(class_num):
-                if y_true[i][j] == 1:
-                    P[j].append(i)
-                else:
-                    N[j].append(i)
-    
-    for i in range(class_num):
-        labels_size.append(len(P[i]))
-        not_labels_size.append(len(N[i]))
-    
-    for i in range(class_num):
-        auc = 0
-        for j in range(labels_size[i]):
-            for k in range(not_labels_size[i]):
-                pos = y_score[P[i][j]][i]
-                neg = y_score[N[i][k]][i]
-                if pos > neg:
-                    auc = auc + 1
-        AUC = AUC + auc*1.0/(labels_size[i]*not_labels_size[i])
-    return AUC*1.0/class_num
+    # all (instance, label) entries are pooled
+    if sample_weight is not None:
+        sample_weight = np.repeat(sample_weight, y_true.shape[1])
+    return roc_auc_score(np.ravel(y_true) == 1, np.ravel(y_score), pos_label=True, sample_weight=sample_weight)
 
 
 def average_precision_score(y_true, y_score, sample_weight=None):
-- 
2.43.0


From a122290ff5af1fea367ca460f2543e00fd5ecbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 039/114] fix: roc_auc_score squeezes column vectors

---
 alipy/metrics/performance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index a681cf7..fc30a70 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -480,6 +480,8 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     auc : float
         For label indicators, the mean over the classes.
     """
+    if np.ndim(y_true) == 2 and np.shape(y_true)[1] == 1:
+        y_true, y_score = np.ravel(y_true), np.ravel(y_score)
     if np.ndim(y_true) == 2:
         y_true, y_score = np.asarray(y_true), np.asarray(y_score)
         if y_true.shape != y_score.shape:
-- 
2.43.0


From f9903dab0c8f0b640b333a1de1c539cb24de509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 040/114] fix: average_precision_score averages over the ranked
 instances and uses sample_weight

---
 alipy/metrics/performance.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index fc30a70..1cce281 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -863,16 +863,21 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     labels_index = []
     not_labels_index = []
     labels_size = []
+    weights = []
     for i in range(test_data_num):
         if sum(y_true[i]) != class_num and sum(y_true[i]) != 0:
             instance_num = instance_num + 1
             temp_outputs.append(y_score[i])
             temp_test_target.append(y_true[i])
             labels_size.append(sum(y_true[i] == 1))
+            weights.append(1 if sample_weight is None else sample_weight[i])
             index1, index2 = find(y_true[i], 1, 0)            
             labels_index.append(index1)
             not_labels_index.append(index2)
     
+    if instance_num == 0:
+        # the label ranking has no meaning
+        return 1.
     aveprec = 0
     for i in range(instance_num):
         tempvalue, index = sort(temp_outputs[i])
@@ -884,5 +889,5 @@ def average_precision_score(y_true, y_score, sample_weight=None):
         for j in range(labels_size[i]):
             loc = findIndex(labels_index[i][j], index)
             summary = summary + sum(indicator[loc:class_num])*1.0/(class_num-loc)
-        aveprec = aveprec + summary*1.0/labels_size[i]
-    return aveprec*1.0/test_data_num
+        aveprec = aveprec + weights[i]*summary/labels_size[i]
+    return aveprec*1.0/np.sum(weights)
-- 
2.43.0


From 49fd2a4d08a27892c627e9d82bcb64f752136eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:41 +0000
Subject: [PATCH 041/114] fix: average_precision_score accepts integer scores

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 1cce281..616319f 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -757,7 +757,7 @@ def findmax(outputs):
 
 
 def sort(x):
-    temp = np.array(x)
+    temp = np.array(x, dtype=float)
     length = temp.shape[0]
     index = []
     sortX = []
-- 
2.43.0


From 60ca7766f07d8072ce907e4c2b9dcab18d2b446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 042/114] fix: get_methods_names returns the names (it raised
 AttributeError)

---
 alipy/utils/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index 1ec90ec..3833de7 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -244,7 +244,7 @@ class BaseAnalyser(metaclass=ABCMeta):
         self._data_summary = dict()
 
     def get_methods_names(self):
-        return self.__data_raw.keys()
+        return self._data_extracted.keys()
 
     def get_extracted_data(self, method_name):
         return self._data_extracted[method_name]
-- 
2.43.0


From dc8949ca777c10acebd3ff38f04404eb58531595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 043/114] fix: extract_matrix puts the initial performance only
 in front of performances, not of costs or selections

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 49a225a..c05e662 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -182,7 +182,7 @@ class StateIOContainer:
         if isinstance(extract_keys, str):
             for stateio in self:
                 stateio_line = []
-                if stateio.initial_point is not None:
+                if extract_keys == 'performance' and stateio.initial_point is not None:
                     stateio_line.append(stateio.initial_point)
                 for state in stateio:
                     if extract_keys not in state.keys():
-- 
2.43.0


From 1cae897adbcf1b23cb53578605de5b124542f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:19 +0000
Subject: [PATCH 044/114] fix: the analyser warns about differing settings (the
 check was never called)

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index c05e662..868f86a 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -384,7 +384,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         1.NaN, Inf etc.
         2.methods_continuity
         """
-        if not self._check_methods_continuity:
+        if not self._check_methods_continuity():
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
-- 
2.43.0


From bec06b7f8f7f607f5cccf68fb182a05b3f84bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:50 +0000
Subject: [PATCH 045/114] fix: learning curves are drawn at each method's own
 query counts (mixed methods, start point with a plot interval)

---
 alipy/experiment/experiment_analyser.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 868f86a..e735195 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -482,21 +482,20 @@ class _NumOfQueryAnalyser(BaseAnalyser):
                 points = np.asarray([points[point_ind] for point_ind in range(ori_ponits_len) if point_ind % plot_interval == 0])
                 if std_area:
                     std_points = np.asarray([std_points[point_ind] for point_ind in range(len(std_points)) if point_ind % plot_interval == 0])
-            if x_shift is None:
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
-                    x_shift = 1
-                else:
-                    x_shift = 0
+            # each method has its own shift, and only StateIO objects have an initial point
+            shift = x_shift
+            if shift is None:
+                shift = 1 if self._data_summary[i].ip is None else 0
             if start_point is not None:
-                x_shift = 0
-                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + x_shift, [start_point] + list(points), label=i)
+                shift = 0
+                plt.plot(np.r_[0, np.arange(ori_ponits_len, step=plot_interval) + 1] + shift, [start_point] + list(points), label=i)
                 if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift + 1, points - std_points, points + std_points,
+                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift + 1, points - std_points, points + std_points,
                                      interpolate=True, alpha=std_alpha)
             else:
-                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points, label=i)
+                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + shift, points, label=i)
                 if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points - std_points, points + std_points,
+                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift, points - std_points, points + std_points,
                                      interpolate=True, alpha=std_alpha)
 
         # axis & title
-- 
2.43.0


From 8977d025726056f28f5f72604ba0fa9c5f15cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:50 +0000
Subject: [PATCH 046/114] fix: cost curves start at each fold's own initial
 point and the std area follows x_shift

---
 alipy/experiment/experiment_analyser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index e735195..e2dc913 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -240,6 +240,7 @@ class _ContentSummary:
         # for stateio object only
         self.batch_flag = False
         self.ip = None
+        self.fold_ips = []
         self.batch_size = 0
 
         # Only for num of query
@@ -282,6 +283,7 @@ class _ContentSummary:
         ex_data = []
         for result in method_results:
             self.ip = result.initial_point
+            self.fold_ips.append(self.ip)
             one_fold_perf = [result[i].get_value('performance') for i in range(self.effective_length)]
             one_fold_cost = [result[i].get_value('cost') if 'cost' in result[i].keys() else 0 for i in
                              range(self.effective_length)]
@@ -694,12 +696,12 @@ class _CostEffectiveAnalyser(BaseAnalyser):
 
             if start_point is None:
                 # attempt to infer the start point
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
+                if self._data_summary[i].ip is None:
                     pass
                 else:
                     for fold_num in range(len(y_axis)):
                         x_axis[fold_num].insert(0, 0)
-                        y_axis[fold_num].insert(0, self._data_summary[i].ip)
+                        y_axis[fold_num].insert(0, self._data_summary[i].fold_ips[fold_num])
             else:
                 # Use the specified start point
                 for fold_num in range(len(y_axis)):
@@ -723,7 +725,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 std_points = np.std(new_y_axis, axis=0)
             plt.plot(new_x_axis + x_shift, points, label=i)
             if std_area:
-                plt.fill_between(new_x_axis, points - std_points, points + std_points,
+                plt.fill_between(new_x_axis + x_shift, points - std_points, points + std_points,
                                  interpolate=True, alpha=std_alpha)
 
         # axis & title
-- 
2.43.0


From 68e1162cfc6f91a3728a712a515a8d7d12815b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 047/114] fix: saving replaces the file in one step, so an
 interrupted save leaves the former state

---
 alipy/experiment/state_io.py |  5 ++---
 alipy/oracle/oracle.py       |  9 +++------
 alipy/toolbox.py             |  7 +++----
 alipy/utils/misc.py          | 15 +++++++++++++++
 alipy/utils/multi_thread.py  |  7 +++----
 5 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index c4c7d55..07201bc 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -27,6 +27,7 @@ from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import pickle_to_file
 
 __all__ = ['StateIO',
            ]
@@ -160,9 +161,7 @@ class StateIO:
         """Saving intermediate results to file."""
         if self._saving_dir is None:
             return
-        f = open(os.path.join(self._saving_dir, self._saving_file_name), 'wb')
-        pickle.dump(self, f)
-        f.close()
+        pickle_to_file(self, os.path.join(self._saving_dir, self._saving_file_name))
 
     def add_state(self, state):
         """Add a State object to the container.
diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 662c276..b398b69 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -17,7 +17,7 @@ from sklearn.utils.validation import check_array
 from ..utils import interface
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.ace_warnings import *
-from ..utils.misc import check_one_to_one_correspondence, unpack
+from ..utils.misc import check_one_to_one_correspondence, pickle_to_file, unpack
 
 __all__ = ['Oracle',
            'OracleQueryInstance',
@@ -269,14 +269,11 @@ class Oracle(interface.BaseVirtualOracle):
         else:
             if not isinstance(saving_path, str):
                 raise TypeError("A string is expected, but received: %s" % str(type(saving_path)))
-        import pickle
         saving_path = os.path.abspath(saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'oracle.pkl'), 'wb')
+            pickle_to_file(self, os.path.join(saving_path, 'oracle.pkl'))
         else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            pickle_to_file(self, saving_path)
 
     @classmethod
     def load_oracle(cls, path):
diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index c54012b..7a47ede 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -18,6 +18,7 @@ from .metrics import performance
 from .oracle.knowledge_repository import MatrixRepository, ElementRepository
 from .oracle.oracle import OracleQueryMultiLabel, Oracle, OracleQueryFeatures
 from .query_strategy import check_query_type
+from .utils.misc import pickle_to_file
 from .utils.multi_thread import aceThreading
 
 class ToolBox:
@@ -536,11 +537,9 @@ class ToolBox:
             return
         saving_path = os.path.abspath(self._saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'al_settings.pkl'), 'wb')
+            pickle_to_file(self, os.path.join(saving_path, 'al_settings.pkl'))
         else:
-            f = open(os.path.abspath(saving_path), 'wb')
-        pickle.dump(self, f)
-        f.close()
+            pickle_to_file(self, saving_path)
 
     def IndexCollection(self, array=None):
         """Return an IndexCollection object initialized with array."""
diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index b256cea..24272f0 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -4,6 +4,9 @@ Misc functions to be settled
 
 from __future__ import division
 
+import os
+import pickle
+
 import numpy as np
 from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, \
     rbf_kernel
@@ -18,8 +21,20 @@ __all__ = ['check_matrix',
            'calc_kernel_matrix',
            'check_one_to_one_correspondence',
            'unpack',
+           'pickle_to_file',
            ]
 
+
+def pickle_to_file(obj, path):
+    """Pickle an object to a file, replacing the file in one step: whenever the
+    process dies, the file holds either its former content or the complete new one."""
+    path = os.path.realpath(path)
+    tmp_path = path + '.tmp'
+    with open(tmp_path, 'wb') as f:
+        pickle.dump(obj, f)
+    os.replace(tmp_path, path)
+
+
 def check_matrix(matrix):
     """check if the given matrix is legal."""
     matrix = check_array(matrix, accept_sparse='csr', ensure_2d=False, order='C')
diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd52558..a52f836 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -11,6 +11,7 @@ from ..experiment import StateIO
 from ..index import IndexCollection, MultiLabelIndexCollection
 from ..index.multi_label_tools import check_index_multilabel
 from ..utils.interface import BaseCollection
+from ..utils.misc import pickle_to_file
 
 __all__ = ['aceThreading',
            ]
@@ -291,11 +292,9 @@ class aceThreading:
         if self._saving_path is None:
             return
         if os.path.isdir(self._saving_path):
-            f = open(os.path.join(self._saving_path, 'multi_thread_state.pkl'), 'wb')
+            pickle_to_file(self, os.path.join(self._saving_path, 'multi_thread_state.pkl'))
         else:
-            f = open(self._saving_path, 'wb')
-        pickle.dump(self, f)
-        f.close()
+            pickle_to_file(self, self._saving_path)
 
     @classmethod
     def recover(cls, path):
-- 
2.43.0


From 4b26a96d8ac975e4134f0aeb92dd4bcba0cb9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 048/114] fix: threads of the rest of the program do not block
 starting the rounds

---
 alipy/utils/multi_thread.py | 39 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index a52f836..cfab181 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -185,38 +185,21 @@ class aceThreading:
         else:
             assert (len(self._recover_arr) == self._round_num)
         # start thread
-        available_thread = self.__max_thread
         for i in range(self._round_num):
             if not self._recover_arr[i]:
                 continue
-            if available_thread > 0:
-                self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
-                available_thread -= 1
-
-                # saving
-                self._update_thread_state()
-                self.save()
-            else:
-                # waiting current thread
-                while True:
-                    if self._if_refresh():
-                        print(self)
-                        # The active_count seems also include the main thread
-                        # print(threading.active_count())
-                    if threading.active_count() - 1 < self.__max_thread:
-                        available_thread += self.__max_thread - threading.active_count() + 1
-                        break
-                # run the if code
-                self.__threads[i].start()
-                self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
-                available_thread -= 1
+            # waiting current thread. Only the threads of this object count, the program may have others
+            while sum(t.is_alive() for t in self.__threads) >= self.__max_thread:
+                if self._if_refresh():
+                    print(self)
+                time.sleep(0.001)
+            self.__threads[i].start()
+            self._thread_time_elapse[i] = time.time()
+            self.__alive_thread[i] = True
 
-                # saving
-                self._update_thread_state()
-                self.save()
+            # saving
+            self._update_thread_state()
+            self.save()
 
         # waiting for other threads.
         for i in range(self._round_num):
-- 
2.43.0


From eb0167d20d8131ea12dedaf3fc1c1db02486a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 049/114] fix: a recovered run keeps its global parameters, and
 saving works before the start

---
 alipy/utils/multi_thread.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index cfab181..01019b5 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -74,6 +74,7 @@ class aceThreading:
         self._refresh_interval = refresh_interval
         self._saving_path = os.path.abspath(saving_path)
         self._recover_arr = None
+        self._global_parameters = None
 
         # the path to store results of each thread.
         tp_path = os.path.join(self._saving_path, 'AL_result')
@@ -168,7 +169,7 @@ class aceThreading:
     def __init_threads(self, global_parameters=None):
         if global_parameters is not None:
             assert (isinstance(global_parameters, dict))
-        self._global_parameters = global_parameters
+            self._global_parameters = global_parameters
 
         # init thread objects
         for i in range(self._round_num):
@@ -176,7 +177,7 @@ class aceThreading:
                 'round': i, 'train_id': self._train_idx[i], 'test_id': self._test_idx[i],
                 'Ucollection': self._saver[i].get_workspace()[3], 'Lcollection': self._saver[i].get_workspace()[2],
                 'saver': self._saver[i], 'examples': self._examples, 'labels': self._labels,
-                'global_parameters': global_parameters})
+                'global_parameters': self._global_parameters})
             self.__threads.append(t)
 
     def __start_all_threads(self):
@@ -304,6 +305,7 @@ class aceThreading:
                              breakpoint._test_idx, breakpoint._label_index, breakpoint._unlabel_index,
                              breakpoint._target_func, breakpoint.__max_thread,
                              breakpoint._refresh_interval, breakpoint._saving_path)
+        recover_thread._global_parameters = breakpoint._global_parameters
         # loading tmp files
         state_path = os.path.join(breakpoint._saving_path, 'AL_result')
         recover_arr = [True] * breakpoint._round_num
-- 
2.43.0


From 6a8a291651a91c3721b0b8a68c8f4a6243f20d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 050/114] fix: recovery tells finished rounds from interrupted,
 failed and never started ones, and ignores an earlier run's files

---
 alipy/utils/multi_thread.py | 44 +++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 01019b5..bea4561 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -116,6 +116,7 @@ class aceThreading:
         self._thread_time_elapse = [-1] * self._round_num
         # for recovering the workspace
         self.__alive_thread = [False] * self._round_num
+        self._finished = [False] * self._round_num
 
         self._target_func = None
         if target_func is not None:
@@ -173,16 +174,27 @@ class aceThreading:
 
         # init thread objects
         for i in range(self._round_num):
-            t = threading.Thread(target=self._target_func, name=str(i), kwargs={
+            t = threading.Thread(target=self._run_round, name=str(i), kwargs={
                 'round': i, 'train_id': self._train_idx[i], 'test_id': self._test_idx[i],
                 'Ucollection': self._saver[i].get_workspace()[3], 'Lcollection': self._saver[i].get_workspace()[2],
                 'saver': self._saver[i], 'examples': self._examples, 'labels': self._labels,
                 'global_parameters': self._global_parameters})
             self.__threads.append(t)
 
+    def _run_round(self, **kwargs):
+        self._target_func(**kwargs)
+        # only a round which has come to its end is finished, not one that was stopped by an error
+        self._finished[kwargs['round']] = True
+
     def __start_all_threads(self):
         if self._recover_arr is None:
             self._recover_arr = [True] * self._round_num
+            # what an earlier run left in the saving path must not be taken for the state of this one
+            record = os.path.join(self._saving_path, 'multi_thread_state.pkl')
+            if os.path.exists(record):
+                os.remove(record)
+            for saver in self._saver:
+                saver.save()
         else:
             assert (len(self._recover_arr) == self._round_num)
         # start thread
@@ -259,7 +271,9 @@ class aceThreading:
             self._target_func,
             self._global_parameters,
             self.__alive_thread,
-            self._saver
+            self._saver,
+            list(self._finished),
+            self._recover_arr
         )
         return pickle_seq
 
@@ -267,7 +281,8 @@ class aceThreading:
         self._examples, self._labels, self._train_idx, self._test_idx, \
         self._label_index, self._unlabel_index, self._refresh_interval, \
         self._saving_path, self._round_num, self.__max_thread, \
-        self._target_func, self._global_parameters, self.__alive_thread, self._saver = state
+        self._target_func, self._global_parameters, self.__alive_thread, self._saver, self._finished, \
+        self._recover_arr = state
 
     def save(self):
         """
@@ -306,27 +321,24 @@ class aceThreading:
                              breakpoint._target_func, breakpoint.__max_thread,
                              breakpoint._refresh_interval, breakpoint._saving_path)
         recover_thread._global_parameters = breakpoint._global_parameters
+        if breakpoint._recover_arr is None:
+            # saved before the start, there is nothing to load
+            return recover_thread
         # loading tmp files
         state_path = os.path.join(breakpoint._saving_path, 'AL_result')
         recover_arr = [True] * breakpoint._round_num
         for i in range(breakpoint._round_num):
             file_dir = os.path.join(state_path, breakpoint._saver[i]._saving_file_name)
-            if not breakpoint.__alive_thread[i]:
-                if os.path.exists(file_dir) and os.path.getsize(file_dir) != 0:
-                    # all finished
-                    recover_thread._saver[i] = StateIO.load(
-                        os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
-                    recover_arr[i] = False
-                else:
-                    # not started
-                    pass
-            else:
-                if os.path.getsize(file_dir) == 0:
-                    # not saving, but started, use the initialized stateIO object
-                    continue
+            if breakpoint._finished[i]:
+                # all finished
+                recover_thread._saver[i] = breakpoint._saver[i]
+                recover_thread._finished[i] = True
+                recover_arr[i] = False
+            elif os.path.exists(file_dir) and os.path.getsize(file_dir) != 0:
                 # still running
                 # load intermediate result file
                 recover_thread._saver[i] = StateIO.load(
                     os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
+            # otherwise not started, use the initialized stateIO object
         recover_thread._recover_arr = recover_arr
         return recover_thread
-- 
2.43.0


From 0024514460a286f490a904d5104564369ba60d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 051/114] fix: parallel rounds of an experiment do not share
 one model

---
 alipy/experiment/al_experiment.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cce5c52..39f3dfc 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -365,8 +365,10 @@ class AlExperiment:
         """
         Lcollection = IndexCollection(Lcollection)
         Ucollection = IndexCollection(Ucollection)
-        self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-        pred = self._model.predict(self._X[test_id, :])
+        # the rounds may run at the same time, each one needs a model of its own
+        model = copy.deepcopy(self._model)
+        model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+        pred = model.predict(self._X[test_id, :])
 
         # some query strategy,such as QueryInstanceGraphDensity,QueryInstanceQUIRE, need train_ind
         if self._query_function_need_train_ind:
@@ -395,7 +397,7 @@ class AlExperiment:
                     select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
                 elif 'model' in inspect.getfullargspec(self._query_function.select)[0]:
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
-                                                             model=self._model)
+                                                             model=model)
                 elif self._query_function_name == 'QueryInstanceBMDR' or self._query_function_name == 'QueryInstanceSPAL':
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                              qp_solver=self.qp_solver)
@@ -407,8 +409,8 @@ class AlExperiment:
             Lcollection.update(select_ind)
             Ucollection.difference_update(select_ind)
             # update model
-            self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-            pred = self._model.predict(self._X[test_id, :])
+            model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+            pred = model.predict(self._X[test_id, :])
 
             # performance calc
             perf_result = self._performance_metric(self._y[test_id], pred)
-- 
2.43.0


From 4ecec91ffdf5796e75b000358b31c4e8c5987482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 052/114] fix: each round's stopping criterion starts with the
 round, and sees an empty initial pool

---
 alipy/experiment/al_experiment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 39f3dfc..f899432 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -386,6 +386,9 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
+        # each round is timed from its own start, and may start with an empty pool
+        stopping_criterion.reset()
+        stopping_criterion.update_information(saver)
         saver.set_initial_point(perf_result)
 
         while not stopping_criterion.is_stop():
-- 
2.43.0


From 5a42effc0db098a6666a06619f2fdc95059b9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 053/114] fix: a second sequential run replaces the results
 instead of repeating the folds

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index f899432..9c738eb 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -350,6 +350,7 @@ class AlExperiment:
             check_flag = kwargs.pop('check_flag', True)
             verbose = kwargs.pop('verbose', True)
             print_interval = kwargs.pop('print_interval', 1)
+            self._experiment_result = []
             for round in range(self._split_count):
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
-- 
2.43.0


From b8e8a3db1b241969b72f3461082b8ab6a45b818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 054/114] fix: the saved record of a parallel experiment can be
 recovered

---
 alipy/experiment/al_experiment.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 9c738eb..ee6bfda 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -341,7 +341,7 @@ class AlExperiment:
             ace = aceThreading(self._X, self._y, self._train_idx, self._test_idx,
                                self._label_idx, self._unlabel_idx, max_thread=max_thread,
                                refresh_interval=refresh_interval, saving_path=saving_path)
-            ace.set_target_function(self.__al_main_loop)
+            ace.set_target_function(self._al_main_loop)
             ace.start_all_threads()
             self._experiment_result = ace.get_results()
         else:
@@ -355,12 +355,12 @@ class AlExperiment:
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
                                 print_interval)
-                self.__al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
-                                    self._unlabel_idx[round], saver)
+                self._al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
+                                   self._unlabel_idx[round], saver)
                 self._experiment_result.append(copy.deepcopy(saver))
 
-    def __al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
-                       saver, examples=None, labels=None, global_parameters=None):
+    def _al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
+                      saver, examples=None, labels=None, global_parameters=None):
         """
             The active-learning main loop.
         """
@@ -390,7 +390,9 @@ class AlExperiment:
         # each round is timed from its own start, and may start with an empty pool
         stopping_criterion.reset()
         stopping_criterion.update_information(saver)
-        saver.set_initial_point(perf_result)
+        if len(saver) == 0:
+            # a recovered round keeps the initial point it started with
+            saver.set_initial_point(perf_result)
 
         while not stopping_criterion.is_stop():
             if not self.__custom_strategy_flag:
-- 
2.43.0


From 70c1f32b9362534002934b5751e8add7393d1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 055/114] fix: an experiment honours the metric given to its
 constructor and rejects a missing query strategy before running

---
 alipy/experiment/al_experiment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index ee6bfda..7fd2c7d 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -98,6 +98,9 @@ class AlExperiment:
         self._X, self._y = check_X_y(X, y, accept_sparse='csc', multi_output=True)
         self._model = model
         self._experiment_result = []
+        self._train_idx = None
+        self._query_function_name = None
+        self.set_performance_metric(performance_metric)
         # set split in the initial
         train_idx = kwargs.pop('train_idx', None)
         test_idx = kwargs.pop('test_idx', None)
@@ -334,6 +337,9 @@ class AlExperiment:
             raise Exception("Performance_Metrics is unknown."
                             " Use set_performance_metric() to define a performance_metrics.")
 
+        if self._query_function_name is None:
+            raise Exception("Query strategy is unknown. Use set_query_strategy() to define a query strategy.")
+
         if multi_thread:
             max_thread = kwargs.pop('max_thread', None)
             refresh_interval = kwargs.pop('refresh_interval', 1.0)
-- 
2.43.0


From ca9f6f41ee5e6248be2fe099b1b0bff2d7e87c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 056/114] fix: a feature-querying tool box splits its features

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 7a47ede..240234a 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -227,7 +227,7 @@ class ToolBox:
             return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
 
         self.split_count = split_count
-        if self._target_type != 'Features':
+        if self.query_type != 'Features':
             if self._target_type != 'multilabel':
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split(
                     X=self._X if self._instance_flag else None,
-- 
2.43.0


From 4e489ac34e73519d809dc8287b8626af4222093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 057/114] fix: a tool box saved to a file keeps its split files
 in that file's folder

---
 alipy/toolbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 240234a..9586686 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -237,7 +237,7 @@ class ToolBox:
                     split_count=split_count,
                     instance_indexes=self._indexes,
                     all_class=all_class,
-                    saving_path=self._saving_path)
+                    saving_path=self._saving_dir)
             else:
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_multi_label(
                     y=self._y,
@@ -246,7 +246,7 @@ class ToolBox:
                     initial_label_rate=initial_label_rate,
                     split_count=split_count,
                     all_class=all_class,
-                    saving_path=self._saving_path
+                    saving_path=self._saving_dir
                 )
         else:
             self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_features(
@@ -255,7 +255,7 @@ class ToolBox:
                 missing_rate=1 - initial_label_rate,
                 split_count=split_count,
                 all_features=all_class,
-                saving_path=self._saving_path
+                saving_path=self._saving_dir
             )
         self._split = True
         self.save()
-- 
2.43.0


From 884e0e7ae9534a9491a4b04e07601120b39d4225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 058/114] fix: the tool box hands out copies of its split, and
 keeps its own of the given one

---
 alipy/toolbox.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 9586686..95e5805 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -152,10 +152,10 @@ class ToolBox:
                 raise ValueError("train_idx, test_idx, label_idx, unlabel_idx "
                                  "should have the same split count (length)")
             self._split = True
-            self.train_idx = train_idx
-            self.test_idx = test_idx
-            self.label_idx = label_idx
-            self.unlabel_idx = unlabel_idx
+            self.train_idx = copy.deepcopy(train_idx)
+            self.test_idx = copy.deepcopy(test_idx)
+            self.label_idx = copy.deepcopy(label_idx)
+            self.unlabel_idx = copy.deepcopy(unlabel_idx)
             self.split_count = len(train_idx)
 
         self._saving_path = saving_path
@@ -224,7 +224,7 @@ class ToolBox:
         if self._split is True:
             warnings.warn("Data has already been split. Return the existed split in case of overwriting.",
                           category=RuntimeWarning)
-            return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+            return self.get_split()
 
         self.split_count = split_count
         if self.query_type != 'Features':
@@ -259,7 +259,7 @@ class ToolBox:
             )
         self._split = True
         self.save()
-        return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+        return self.get_split()
 
     def get_split(self, round=None):
         """Get split of one fold experiment.
@@ -522,10 +522,11 @@ class ToolBox:
             raise Exception("instance matrix is necessary for initializing aceThreading object.")
         if not self._split:
             raise Exception("The split information is not found, please split the data or set the split setting first.")
+        train_idx, test_idx, label_idx, unlabel_idx = self.get_split()
         return aceThreading(examples=self._X, labels=self._y,
-                            train_idx=self.train_idx, test_idx=self.test_idx,
-                            label_index=self.label_idx,
-                            unlabel_index=self.unlabel_idx,
+                            train_idx=train_idx, test_idx=test_idx,
+                            label_index=label_idx,
+                            unlabel_index=unlabel_idx,
                             refresh_interval=refresh_interval,
                             max_thread=max_thread,
                             saving_path=saving_path,
-- 
2.43.0


From 53124e80529a6f914ad12537d6c1c2209b8e7d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 059/114] fix: the clean oracle has the given costs, the box's
 instance names and supports partial labels

---
 alipy/toolbox.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 95e5805..6023c39 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -314,13 +314,10 @@ class ToolBox:
         """
         if self.query_type == 'Features':
             return OracleQueryFeatures(feature_mat=self._X, cost=cost_mat)
-        elif self.query_type == 'AllLabels':
-            if self._target_type == 'multilabel':
-                return OracleQueryMultiLabel(self._y) if not query_by_example else OracleQueryMultiLabel(self._y,
-                                                                                                         examples=self._X,
-                                                                                                         cost=cost_mat)
-            else:
-                return Oracle(self._y) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
+        examples = self._X if query_by_example else None
+        if self._target_type == 'multilabel':
+            return OracleQueryMultiLabel(self._y, examples=examples, cost=cost_mat)
+        return Oracle(self._y, examples=examples, indexes=self._indexes, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
-- 
2.43.0


From 2a30d11d67a88f6d5581a796da761e30822c1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 060/114] fix: MultiLabelIndexCollection of a tool box accepts
 one-dimensional positions

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 6023c39..f893981 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -568,7 +568,7 @@ class ToolBox:
             return MultiLabelIndexCollection(data=array, label_size=self._y.shape[1] if label_mat_shape is None else
             label_mat_shape[1])
         else:
-            return MultiLabelIndexCollection.construct_by_1d_array(data=array,
+            return MultiLabelIndexCollection.construct_by_1d_array(array=array,
                                                                    label_mat_shape=self._y.shape if label_mat_shape is None else label_mat_shape,
                                                                    order=order)
 
-- 
2.43.0


From 6420253c817320e7d3b8888de0eec98391bb3c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 061/114] fix: score metrics get the whole prediction (the
 positive class of a two-column one), not its first column

---
 alipy/toolbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index f893981..763ba52 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -4,6 +4,7 @@ import pickle
 import warnings
 import inspect
 
+import numpy as np
 from sklearn.linear_model import LogisticRegression
 from sklearn.utils import check_array
 from sklearn.utils.multiclass import type_of_target, unique_labels
@@ -439,7 +440,9 @@ class ToolBox:
         if 'y_pred' in metric_para.parameters:
             return performance_metric(y_pred=y_pred, y_true=y_true, **kwargs)
         else:
-            y_pred = y_pred[:, 0]
+            if np.ndim(y_true) == 1 and np.ndim(y_pred) == 2 and np.shape(y_pred)[1] == 2:
+                # the probabilities of two classes, scored by the one of the second (positive) class
+                y_pred = np.asarray(y_pred)[:, 1]
             return performance_metric(y_score=y_pred, y_true=y_true, **kwargs)
 
     def get_default_model(self):
-- 
2.43.0


From e87a079813ae0966609ca8b306a7ae769d965830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 062/114] fix: repositories of a tool box hold the labels of
 exactly the labeled entries (multi-label, features, named instances)

---
 alipy/toolbox.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 763ba52..9c47dd4 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -374,13 +374,23 @@ class ToolBox:
         assert (0 <= round < self.split_count)
         train_id, test_id, Lcollection, Ucollection = self.get_split(round)
         if self.query_type == 'AllLabels':
-            return MatrixRepository(labels=self._y[Lcollection.index],
-                                    examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                    indexes=Lcollection.index)
+            if self._target_type == 'multilabel':
+                indexes = positions = Lcollection.get_instance_index()
+            else:
+                indexes = Lcollection.index
+                position_of = dict(zip(self._indexes, range(self._index_len)))
+                positions = [position_of[ind] for ind in indexes]
+            return MatrixRepository(labels=self._y[positions],
+                                    examples=self._X[positions, :] if instance_flag else None,
+                                    indexes=indexes)
         else:
-            return ElementRepository(labels=self._y[Lcollection.index],
-                                     examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                     indexes=Lcollection.index)
+            # the supervised information of each queried entry
+            values = self._X if self.query_type == 'Features' else self._y
+            indexes = list(Lcollection)
+            instances = [ind[0] if isinstance(ind, tuple) else ind for ind in indexes]
+            return ElementRepository(labels=[values[ind] for ind in indexes],
+                                     examples=[self._X[ind, :] for ind in instances] if instance_flag else None,
+                                     indexes=indexes)
 
     def get_query_strategy(self, strategy_name="QueryInstanceRandom", **kwargs):
         """Return the query strategy object.
-- 
2.43.0


From 8f14f456e243b8384605e6c18afe14edfae7da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 063/114] fix: get_ace_threading works for feature querying

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 9c47dd4..340b7cd 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -532,7 +532,7 @@ class ToolBox:
             raise Exception("instance matrix is necessary for initializing aceThreading object.")
         if not self._split:
             raise Exception("The split information is not found, please split the data or set the split setting first.")
-        train_idx, test_idx, label_idx, unlabel_idx = self.get_split()
+        train_idx, test_idx, label_idx, unlabel_idx = zip(*[self.get_split(i) for i in range(self.split_count)])
         return aceThreading(examples=self._X, labels=self._y,
                             train_idx=train_idx, test_idx=test_idx,
                             label_index=label_idx,
-- 
2.43.0


From 4eb6b9ca86c570a5cfbe3acb85cbb9dbae76a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 064/114] fix: a parallel run can be recovered from its very
 first query on

---
 alipy/utils/multi_thread.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index bea4561..cdb8d00 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -195,6 +195,8 @@ class aceThreading:
                 os.remove(record)
             for saver in self._saver:
                 saver.save()
+            # from here on, whatever the rounds complete can be recovered
+            self.save()
         else:
             assert (len(self._recover_arr) == self._round_num)
         # start thread
-- 
2.43.0


From b995ef7a544ab52b42011d93ffdc393f4cd0053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 065/114] fix: entropy sampling leaves the supplied prediction
 matrix untouched

---
 alipy/query_strategy/query_labels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1876178..4f4f13d 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -214,7 +214,7 @@ class QueryInstanceUncertainty(BaseIndexQuery):
 
         if self.measure == 'entropy':
             # calc entropy
-            pv[pv <= 0] = 1e-06  # avoid zero division
+            pv = np.where(pv <= 0, 1e-06, pv)  # avoid zero division
             entro = [-np.sum(vec * np.log(vec+1e-9)) for vec in pv]
             assert (len(np.shape(entro)) == 1)
             return unlabel_index[nlargestarg(entro, batch_size)]
-- 
2.43.0


From ecac6f140f72f5aa809c9823d8117f2ed3e6518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 066/114] fix: random strategies accept lists and arrays, as
 documented

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 4f4f13d..d8f1453 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -289,7 +289,7 @@ class QueryRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
@@ -319,7 +319,7 @@ class QueryInstanceRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
-- 
2.43.0


From 15d962a4c98cfafd28854a2dbf5303e5ae56c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 067/114] fix: expected error reduction accepts any label
 values and certain predictions

---
 alipy/query_strategy/query_labels.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index d8f1453..99015fe 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -647,7 +647,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         log_loss = 0.0
         for i in range(len(prob)):
             for p in list(prob[i]):
-                log_loss -= p * np.log(p)
+                if p > 0:  # the limit of p * log(p) is 0
+                    log_loss -= p * np.log(p)
         return log_loss
 
     def select(self, label_index, unlabel_index, model=None, batch_size=1):
@@ -693,8 +694,9 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         label_y = self.y[label_index]
         ##################################
 
-        classes = np.unique(self.y)
         pv, spv = _get_proba_pred(unlabel_x, model)
+        # the classes which the columns of the prediction stand for
+        classes = getattr(model, 'classes_', np.unique(label_y))
         scores = []
         for i in range(spv[0]):
             new_train_inds = np.append(label_index, unlabel_index[i])
@@ -703,11 +705,11 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
             unlabel_ind.pop(i)
             new_unlabel_X = self.X[unlabel_ind, :]
             score = []
-            for yi in classes:
+            for col, yi in enumerate(classes):
                 new_model = copy.deepcopy(model)
                 new_model.fit(new_train_X, np.append(label_y, yi))
                 prob = new_model.predict_proba(new_unlabel_X)
-                score.append(pv[i, yi] * self.log_loss(prob))
+                score.append(pv[i, col] * self.log_loss(prob))
             scores.append(np.sum(score))
 
         return unlabel_index[nsmallestarg(scores, batch_size)]
-- 
2.43.0


From ce7d0b4325dd3fda60c4892f6868fb4b2905f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 068/114] fix: QUIRE inverts its blocks correctly

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 99015fe..03b7354 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -849,7 +849,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
         det_Laa = np.linalg.det(L[np.ix_(Uindex, Uindex)])
         # efficient computation of inv(Laa)
         M3 = np.dot(self.K[np.ix_(Uindex, Lindex)],
-                    np.linalg.inv(self.lmbda * np.eye(len(Lindex))))
+                    np.linalg.inv(self.lmbda * np.eye(len(Lindex)) + self.K[np.ix_(Lindex, Lindex)]))
         M2 = np.dot(M3, self.K[np.ix_(Lindex, Uindex)])
         M1 = self.lmbda * np.eye(len(Uindex)) + self.K[np.ix_(Uindex, Uindex)]
         inv_Laa = M1 - M2
@@ -864,7 +864,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
             iList_r = iList[:]
             iList_r.remove(i)
             inv_Luu = inv_Laa[np.ix_(iList_r, iList_r)] - 1 / inv_Laa[i, i] * \
-                                                          np.dot(inv_Laa[iList_r, i], inv_Laa[iList_r, i].T)
+                                                          np.outer(inv_Laa[iList_r, i], inv_Laa[iList_r, i])
             tmp = np.dot(
                 L[each_index][Lindex] -
                 np.dot(
-- 
2.43.0


From 21cc98371750208676b34a62de5a596dc715a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 069/114] fix: graph density works on small or widely spread
 train sets and picks unlabeled instances only

---
 alipy/query_strategy/query_labels.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 03b7354..8888083 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -933,7 +933,7 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
 
     def _compute_graph_density(self, n_neighbor=10):
         # kneighbors graph is constructed using k=10
-        connect = kneighbors_graph(self.flat_X, n_neighbor, p=1)
+        connect = kneighbors_graph(self.flat_X, min(n_neighbor, self.flat_X.shape[0] - 1), p=1)
         # Make connectivity matrix symmetric, if a point is a k nearest neighbor of
         # another point, make it vice versa
         neighbors = connect.nonzero()
@@ -955,7 +955,7 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
         # by total number of neighbors.
         self.graph_density = np.zeros(self.flat_X.shape[0])
         for i in np.arange(self.flat_X.shape[0]):
-            self.graph_density[i] = connect[i, :].sum() / (connect[i, :] > 0).sum()
+            self.graph_density[i] = connect[i, :].sum() / max((connect[i, :] > 0).sum(), 1)
         self.starting_density = copy.deepcopy(self.graph_density)
 
     def select(self, label_index, unlabel_index, batch_size=1, **kwargs):
@@ -988,12 +988,9 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
             return unlabel_index
         batch = set()
 
-        # build map from value to index
-        try:
-            label_index_in_train = [self.train_idx.index(i) for i in label_index]
-        except:
-            label_index_in_train = [np.where(self.train_idx == i)[0][0] for i in label_index]
-        # end
+        # only unlabeled instances may be selected
+        unlabel_set = set(unlabel_index.tolist())
+        label_index_in_train = [pos for pos, i in enumerate(self.train_idx) if i not in unlabel_set]
 
         self.graph_density[label_index_in_train] = min(self.graph_density) - 1
         selected_arr = []
-- 
2.43.0


From d5319ee1c399330f4a5ae17d3504146dd2feff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 070/114] fix: core-set greedy measures distances from the
 given labeled set and handles batches beyond the pool

---
 alipy/query_strategy/query_labels.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 8888083..6cdf002 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1814,7 +1814,7 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
         self.min_distances = None
         self.n_obs = self.X.shape[0]
         self.already_selected = []
-        self.train_idx = train_idx
+        self.train_idx = np.asarray(train_idx)
 
     def update_distances(self, cluster_centers, only_new=True, reset_dist=False):
         """Update min distances given cluster centers.
@@ -1868,13 +1868,15 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
           indices of points selected to minimize distance to cluster centers
         """
         already_selected = [np.where(self.train_idx == id)[0].item() for id in label_index]
-        self.update_distances(already_selected, only_new=True, reset_dist=False)
+        self.update_distances(already_selected, only_new=False, reset_dist=True)
 
         new_batch = []
-        self.min_distances[already_selected] = -100.0
+        # only unlabeled instances may be selected
+        unlabel_set = set(unlabel_index)
+        self.min_distances[[pos for pos, id in enumerate(self.train_idx) if id not in unlabel_set]] = -100.0
         self.already_selected = already_selected
 
-        for _ in range(batch_size):
+        for _ in range(min(batch_size, len(unlabel_set))):
             ind = np.argmax(self.min_distances)
             # New examples should not be in already selected since those points
             # should have min_distance of zero to a cluster center.
-- 
2.43.0


From 1c139349daea6bff01c3c8c5890e3bf4cb164642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:29 +0000
Subject: [PATCH 071/114] fix: density weighted selection from an exhausted
 pool is empty

---
 alipy/query_strategy/query_labels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 6cdf002..fa1fb21 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1921,9 +1921,11 @@ class QueryInstanceDensityWeighted(BaseIndexQuery):
         self.beta = beta
 
     def select(self, label_index, unlabel_index, batch_size=1, model=None, proba_prediction=None, **kwargs):
-        unlab_fea = self.X[unlabel_index]
         if model is None and proba_prediction is None:
             raise ValueError("must provide one of model and proba_prediction.")
+        if len(unlabel_index) == 0:
+            return np.asarray(unlabel_index)
+        unlab_fea = self.X[unlabel_index]
         if model is not None:
             pv = model.predict_proba(unlab_fea)
         else:
-- 
2.43.0


From cdb7ff58b73683371c506ad0c540fb007fe8cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 072/114] fix: MMC and Adaptive leave the given collections
 alone and return instance keys for the last batch too

---
 alipy/query_strategy/multi_label.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8b6855e..44161ed 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -956,9 +956,11 @@ class QueryMultiLabelMMC(BaseIndexQuery):
             unlabel_index = IndexCollection(unlabel_index.get_unbroken_instances())
         elif not isinstance(unlabel_index,IndexCollection):
             raise TypeError("index type error")
+        # the instances selected so far are moved between own copies
+        label_index, unlabel_index = copy.deepcopy(label_index), copy.deepcopy(unlabel_index)
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(ins, ) for ins in unlabel_index]
         
         select_index = []
         for i in range(batch_size):
@@ -1143,9 +1145,11 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
             unlabel_index = IndexCollection(unlabel_index.get_unbroken_instances())
         elif not isinstance(unlabel_index,IndexCollection):
             raise TypeError("index type error")
+        # the instances selected so far are moved between own copies
+        label_index, unlabel_index = copy.deepcopy(label_index), copy.deepcopy(unlabel_index)
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(ins, ) for ins in unlabel_index]
         
         select_index = []
         for i in range(batch_size):
-- 
2.43.0


From ba0a3ff736ef35a16ec769f7277b3a9fe3b7bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 073/114] fix: MMC copes with labeled instances that all have
 the same number of labels

---
 alipy/query_strategy/multi_label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 44161ed..13bcd5c 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -901,7 +901,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y.sum(axis=1))) == 1:
+        if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
-- 
2.43.0


From 6c2d4228557f9b36603b241cb121e74f56948d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 074/114] fix: the last multi-label selection returns keys of
 the requested kind instead of the caller's own collection

---
 alipy/query_strategy/multi_label.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 13bcd5c..9f5935a 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -450,7 +450,7 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
         """
 
         if len(unlabel_index) <= 1:
-            return unlabel_index
+            return list(self._check_multi_label_ind(unlabel_index)) if len(unlabel_index) else []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
@@ -559,7 +559,7 @@ class QueryMultiLabelAUDI(BaseMultiLabelQuery):
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
         if len(unlabel_index) <= 1:
-            return unlabel_index
+            return list(self._check_multi_label_ind(unlabel_index)) if len(unlabel_index) else []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
@@ -1190,16 +1190,20 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             The selected indexes. It is a list of tuples.
         """
         if select_type == 'ins':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
-            unkonwn_ins = unkonwn_entries.get_instance_index()
+            unkonwn_ins = unkonwn_entries.get_unbroken_instances()
+            if len(unkonwn_ins) <= batch_size:
+                return [(i,) for i in unkonwn_ins]
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
+            if len(unkonwn_entries) <= batch_size:
+                return list(unkonwn_entries)
             perm = randperm(len(unkonwn_entries) - 1, batch_size)
             tpl = list(unkonwn_entries.index)
             return [tpl[i] for i in perm]
-- 
2.43.0


From bc062973725b1c98215d0462f735daacce39e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 075/114] fix: matrix completion does not read the values
 stored at the missing entries

---
 alipy/query_strategy/query_features.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ed96db..ae91b95 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -181,8 +181,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
         assert len(ue) == 2
         assert 0 in ue
         assert 1 in ue
-    X_obr = np.zeros((n_samples, n_features))
-    X_obr += obrT * X
+    X_obr = np.where(obrT, X, 0.0)
     n_samples, n_features = X.shape
     lambda2 /= n_samples
     theta0 = 1
@@ -260,7 +259,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
             if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
                 break
 
-    return (1 - obrT) * Xmc + obrT * X
+    return np.where(obrT, X, Xmc)
 
 
 class IterativeSVD_mc:
@@ -365,7 +364,9 @@ class IterativeSVD_mc:
             assert 0 in ue
             assert 1 in ue
         missing_mask = 1 - observed_mask
-        X_filled = X * missing_mask
+        # the missing values are unknown: start with zeros, whatever X stores there.
+        X = np.where(observed_mask, X, 0.0)
+        X_filled = X
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
-- 
2.43.0


From 74da38b92ab6d5911be96dfeb5919c2c5c562fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:36 +0000
Subject: [PATCH 076/114] fix: AFASMC tracks the objective of the outer
 iterations by the outer index

---
 alipy/query_strategy/query_features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index ae91b95..7b112a3 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -191,7 +191,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
     ineqLtemp0 = np.zeros((n_samples, n_features))
     ineqLtemp1 = ineqLtemp0
     L = 2
-    converge_out = np.zeros((max_in_iter, 1))
+    converge_out = np.zeros((max_out_iter, 1))
 
     for i in range(max_out_iter):
         # train a linear model whose obj function is min{norm(Xw-Y)}
@@ -249,14 +249,14 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
 
         converge_out[i] = minObj
         if i == 0:
-            minObj_out = converge_out[k]
+            minObj_out = converge_out[i]
             Xmc = X_mc
         else:
-            if converge_out[k] < minObj_out:
-                minObj_out = converge_out[k]
+            if converge_out[i] < minObj_out:
+                minObj_out = converge_out[i]
                 Xmc = X_mc
         if i > 0:
-            if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
+            if abs(converge_out[i] - converge_out[i - 1]) < (1e-4 * converge_out[i - 1]):
                 break
 
     return np.where(obrT, X, Xmc)
-- 
2.43.0


From 3c081dc49fe0064dcc112a22fc4cdf2c1ca64d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 077/114] fix: IterativeSVD_mc completes matrices with fewer
 rows or columns than its rank

---
 alipy/query_strategy/query_features.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 7b112a3..ed76a68 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -367,6 +367,8 @@ class IterativeSVD_mc:
         # the missing values are unknown: start with zeros, whatever X stores there.
         X = np.where(observed_mask, X, 0.0)
         X_filled = X
+        # an approximation cannot have a higher rank than the matrix (arpack: must be lower)
+        max_rank = max(1, min(X.shape) - (1 if self.svd_algorithm == "arpack" else 0))
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
@@ -374,6 +376,7 @@ class IterativeSVD_mc:
                 curr_rank = min(2 ** i, self.rank)
             else:
                 curr_rank = self.rank
+            curr_rank = min(curr_rank, max_rank)
             tsvd = TruncatedSVD(curr_rank, algorithm=self.svd_algorithm)
             X_reduced = tsvd.fit_transform(X_filled)
             X_reconstructed = tsvd.inverse_transform(X_reduced)
-- 
2.43.0


From 64981cb9332c4fe185384e1fdee5de80c75c8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 078/114] fix: feature queries return a list of entries of
 their own when one unknown entry is left

---
 alipy/query_strategy/query_features.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index ed76a68..486e5fd 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -445,9 +445,11 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries.index)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
@@ -552,9 +554,11 @@ class QueryFeatureRandom(BaseFeatureQuery):
             Note that, the index is a subset of unkonwn_entries.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries.index)
         perm = randperm(len(unkonwn_entries) - 1, batch_size)
         tpl = list(unkonwn_entries.index)
         return [tpl[i] for i in perm]
@@ -622,9 +626,11 @@ class QueryFeatureStability(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries.index)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
-- 
2.43.0


From eff0a576d7a64a4eba15ca7178d5d3ec25779356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 079/114] fix: QueryFeatureRandom returns the whole pool when
 the batch is larger

---
 alipy/query_strategy/query_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 486e5fd..c7f7a92 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -559,7 +559,7 @@ class QueryFeatureRandom(BaseFeatureQuery):
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
         if len(unkonwn_entries) == 1:
             return list(unkonwn_entries.index)
-        perm = randperm(len(unkonwn_entries) - 1, batch_size)
+        perm = randperm(len(unkonwn_entries) - 1, min(batch_size, len(unkonwn_entries)))
         tpl = list(unkonwn_entries.index)
         return [tpl[i] for i in perm]
 
-- 
2.43.0


From 28f62696b5ea60c2460a2a5f1fb25250f37463dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:57 +0000
Subject: [PATCH 080/114] fix: feature queries select one of the given unknown
 entries, and accept a list of training indexes

---
 alipy/query_strategy/query_features.py | 33 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index c7f7a92..f069099 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -420,7 +420,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None):
         super(QueryFeatureAFASMC, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = None if train_idx is None else np.asarray(train_idx)
         self._feature_variance = []
 
     def select(self, observed_entries, unkonwn_entries, **kwargs):
@@ -476,14 +476,19 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False)
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # only the unknown entries can be selected, even if all the variances are 0
+            var_mat = np.where(self._unknown_mask(unkonwn_entries), var_mat, -1)
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
-            selected_feature = np.argmax(1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False))
+            selected_feature = np.argmax(self._unknown_mask(unkonwn_entries))
 
         return [(self._train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
 
+    def _unknown_mask(self, unkonwn_entries):
+        """The mask of the given entries in the training set."""
+        mask = unkonwn_entries.get_matrix_mask(mat_shape=np.shape(self.X), sparse=False)
+        return mask[self._train_idx]
+
     def select_by_mask(self, observed_mask, **kwargs):
         """Select a subset from the unlabeled set by providing the mask matrix, 
         return the selected instance and feature.
@@ -517,8 +522,8 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - observed_mask
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # only the unknown entries can be selected, even if all the variances are 0
+            var_mat = np.where(observed_mask, -1, var_mat)
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
             selected_feature = np.argmax(1 - observed_mask)
@@ -597,7 +602,7 @@ class QueryFeatureStability(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None, rank_arr=None):
         super(QueryFeatureStability, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = None if train_idx is None else np.asarray(train_idx)
         if rank_arr is None:
             rank_arr = [1, 2, 3]
         self._committee = []
@@ -648,8 +653,10 @@ class QueryFeatureStability(BaseFeatureQuery):
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
-        selected_feature_in_train = self.select_by_mask(
-            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False))
+        unknown_mask = unkonwn_entries.get_matrix_mask(mat_shape=np.shape(self.X), sparse=False)[self._train_idx]
+        selected_feature_in_train = self._select_unknown(
+            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False),
+            unknown_mask=unknown_mask)
 
         return [(self._train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
 
@@ -676,7 +683,10 @@ class QueryFeatureStability(BaseFeatureQuery):
         assert len(observed_mask.shape) == 2
         assert observed_mask.shape[0] == len(self._train_idx)
         assert observed_mask.shape[1] == self.X.shape[1]
+        return self._select_unknown(observed_mask, observed_mask == 0)
 
+    def _select_unknown(self, observed_mask, unknown_mask):
+        """Select one of the unknown entries of the training set."""
         X_mc_arr = []
         for comt in self._committee:
             X_mc_arr.append(comt.impute(X=self.X[self._train_idx], observed_mask=observed_mask))
@@ -687,9 +697,10 @@ class QueryFeatureStability(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in X_mc_arr])
-            var_mat *= 1 - observed_mask
+            # only the unknown entries can be selected, even if all the variances are 0
+            var_mat = np.where(unknown_mask, var_mat, -1)
             selected_feature = np.argmax(var_mat)
         else:
-            selected_feature = np.argmax(1 - observed_mask)
+            selected_feature = np.argmax(unknown_mask)
 
         return [(selected_feature // mc_sh[1], selected_feature % mc_sh[1])]
-- 
2.43.0


From 681144feb38e58700e5a0c1f95a9f891f455ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 081/114] fix: the line search of AFASMC ends at the limit of
 the floating point precision

---
 alipy/query_strategy/query_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index f069099..691ec17 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -221,7 +221,8 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
                 Y.flatten())
             ineqR = ineqRtemp + svd_obj_temp.flatten().dot(Z1.flatten()) + L / 2 * sum(sum((Z1 - Y) ** 2))
 
-            while ineqL > ineqR:
+            # at the limit of the floating point precision no step size may pass the test
+            while ineqL > ineqR and L < 1e20:
                 L = L * 2
                 svd_obj = Y - 1 / L * svd_obj_temp
                 Z1, traceNorm = _svd_threshold(svd_obj, lambda1 / L)
-- 
2.43.0


From 491993e80d7cb091f6f010bc5103505c43a4dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 082/114] fix: select_Knapsack_01 accepts the float capacity it
 documents, and integral float costs

---
 alipy/query_strategy/cost_sensitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index aa67f58..85ea8fa 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -49,6 +49,11 @@ def select_Knapsack_01(infor_value, costs, capacity):
     """
     assert(len(infor_value) == len(costs))
     num = len(infor_value)
+    # the costs are integers, so the fractional part of the capacity can not be used.
+    capacity = int(np.floor(capacity))
+    if any(c != int(c) for c in costs):
+        raise ValueError("The costs should be integers.")
+    costs = [int(c) for c in costs]
     dp = np.zeros((num + 1, capacity + 1))
     flag = np.zeros(num)
     for i in range(num):
-- 
2.43.0


From 67842e043dc64105e6ffdf7fe72efdb6454f04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 083/114] fix: HALC takes one weight for each class

---
 alipy/query_strategy/cost_sensitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 85ea8fa..dc4c5d2 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -273,7 +273,8 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         if weights is None:
             self.weights = np.ones(self.n_classes)
         else:
-            assert(np.shape(y)[0] == len(weights))
+            weights = np.asarray(weights).flatten()
+            assert(np.shape(y)[1] == len(weights))
             self.weights = weights
         self.label_tree = label_tree
         self.Distance = self._cal_Distance()
-- 
2.43.0


From dfa536fa44e111add20b069ab5f7796094738af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 084/114] fix: the cost sensitive strategies consider all the
 unlabeled entries and no other, and HALC walks the children in the label tree

---
 alipy/query_strategy/cost_sensitive.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index dc4c5d2..1f595b9 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -351,11 +351,13 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         while not que.empty():
             temp = que.get()
             if np.any(self.label_tree[temp]):
-                for i in self.label_tree[temp]:
+                for i in np.arange(self.n_classes):
                     if self.label_tree[temp, i] == 1:
                         que.put(i)
             else:
-                Udes += Uncertainty[xi_index][temp]
+                # a labeled descendant has no uncertainty
+                if Uncertainty[xi_index][temp] != -np.infty:
+                    Udes += Uncertainty[xi_index][temp]
         return Udes
     
     def cal_Informativeness(self, label_index, unlabel_index, models):
@@ -379,7 +381,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
                     Infor[i][j] = Uncertainty[i][j] * 2
                 elif flag == -1:
                     Infor[i][j] = Uncertainty[i][j] + self.cal_Udes(i, j, Uncertainty)
-            Infor[j_label][j] = -np.infty
+            Infor[j_label, j] = -np.infty
         return Infor
         
     def select(self, label_index, unlabel_index, cost=None, oracle=None, budget=40, models=None, base_model=None):
@@ -452,9 +454,9 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             j_info = Infor[:, j]
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
-            sort_index = sort_index[0: budget]
-            useless_index = np.where(Infor[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]
+            # only the unlabeled entries can be selected.
+            sort_index = sort_index[j_info[sort_index] != -np.infty]
+            sort_index = sort_index[0: int(budget)]
             
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
@@ -639,9 +641,9 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             j_info = uncertainty[:, j]
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
-            sort_index = sort_index[0: budget]
-            useless_index = np.where(uncertainty[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]  
+            # only the unlabeled entries can be selected.
+            sort_index = sort_index[j_info[sort_index] != -np.infty]
+            sort_index = sort_index[0: int(budget)]
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
                 infor_value = np.r_[infor_value, uncertainty[k][j]]
-- 
2.43.0


From f19d4c659bcd2575cc47f54f987cf0304e15d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 085/114] fix: QueryCostSensitiveRandom stops when the pool is
 exhausted before the budget

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 1f595b9..337770e 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -539,7 +539,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         instance_pair = MultiLabelIndexCollection(label_size=n_classes)
         un_ind = copy.deepcopy(unlabel_index)
         current_cost = 0.
-        while True:
+        while len(un_ind) > 0:
             rand = np.random.choice(len(un_ind))
             i_j = flattern_multilabel_index(un_ind.index)[rand]
             j_class = i_j[1]
-- 
2.43.0


From 0fc6669eb9a83c2b4b7b0108f0e7a44f949b2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 086/114] fix: hierarchical_multilabel_mark completes all the
 ancestors of positive labels and all the descendants of negative ones

---
 alipy/query_strategy/cost_sensitive.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 337770e..2337de3 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -210,6 +210,7 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
                 "and the 2nd element is the index of label.")
         label_index = copy.deepcopy(container)
     
+    label_tree = np.asarray(label_tree)
     n_classes = multilabel_index._label_size
     assert(np.shape(label_tree)[0] == n_classes and np.shape(label_tree)[1] == n_classes)
 
@@ -219,15 +220,24 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
         i_instance = instance_label_pair[0]
         j_label = instance_label_pair[1]
         if y_true[instance_label_pair] == 1:
-            for descent_label in range(n_classes):
-                if label_tree[j_label][descent_label] == 1:
-                    if (not (i_instance, descent_label) in label_index):
-                        add_label_index.update((i_instance, descent_label))   
+            # the ancestors of a relevant label are relevant
+            related = label_tree.T
         elif y_true[instance_label_pair] == -1:
-            for parent_label in range(n_classes):
-                if label_tree[parent_label][j_label] == 1:
-                    if (not (i_instance, parent_label) in label_index):
-                        add_label_index.update((i_instance, parent_label))
+            # the descendants of an irrelevant label are irrelevant
+            related = label_tree
+        else:
+            continue
+        reached = set()
+        stack = [j_label]
+        while stack:
+            for other_label in np.flatnonzero(related[stack.pop()] == 1):
+                if other_label not in reached:
+                    reached.add(other_label)
+                    stack.append(other_label)
+        for other_label in reached:
+            pair = (i_instance, int(other_label))
+            if not pair in label_index and not pair in add_label_index:
+                add_label_index.update(pair)
 
     for i in add_label_index:
         if not i in multilabel_index:
-- 
2.43.0


From df0662b32d09481e5989b39d2ea46894a7a72545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 087/114] fix: hierarchical_multilabel_mark does not modify the
 given collection

---
 alipy/query_strategy/cost_sensitive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 2337de3..1e849e9 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -194,7 +194,9 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
                 "start from 0) or a list "
                 "of tuples with 2 elements, in which, the 1st element is the index of instance "
                 "and the 2nd element is the index of label.")
-        multilabel_index = copy.deepcopy(container)
+        multilabel_index = container
+    # the given index should not be modified.
+    multilabel_index = copy.deepcopy(multilabel_index)
     
     if not isinstance(label_index, MultiLabelIndexCollection):
         try:
-- 
2.43.0


From 8445d38d42041f6621ad7a821aa58f82df291c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 088/114] fix: the cost sensitive strategies ask the oracle for
 the cost of every label

---
 alipy/query_strategy/cost_sensitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 1e849e9..bd0db7f 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -452,7 +452,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         
@@ -544,7 +544,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         if oracle is None and cost is None:
             cost = [1]*n_classes
         if oracle:
-            _, costs = oracle.query_by_index(range(n_classes))
+            _, costs = oracle.query_by_index(list(range(n_classes)))
         else:
             costs = cost
 
@@ -634,7 +634,7 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         if models is None:
-- 
2.43.0


From 6a2d243f02eebd3108a1290e45404b8b4875cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 089/114] fix: HALC counts the votes of labeled and predicted
 neighbors together

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index bd0db7f..ea5d7fe 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -349,7 +349,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             if i in label_samples[0]:
                 g_j = self.y[i, j_class]
             else:
-                g_j = models[j_class].predict([self.X[i, :]])
+                g_j = models[j_class].predict([self.X[i, :]])[0]
             vote.append(np.sign(g_j))       
         return np.sign(np.sum(vote)) 
     
-- 
2.43.0


From 987ad1321f5a8bb6fc3a14f5fd17a5a0f15bf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:06 +0000
Subject: [PATCH 090/114] fix: majority_vote counts the weights of the oracles

---
 alipy/query_strategy/noisy_oracles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index c36e220..7f1415c 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -83,9 +83,12 @@ def majority_vote(labels, weight=None):
     oracle_weight = np.ones(len(labels)) if weight is None else weight
     assert len(labels) == len(oracle_weight)
 
-    vote_result = collections.Counter(labels)
-    most_votes = vote_result.most_common(n=1)
-    return most_votes[0][1], most_votes[0][0]
+    vote_count = collections.Counter(labels)
+    vote_weight = collections.Counter()
+    for lab, wei in zip(labels, oracle_weight):
+        vote_weight[lab] += wei
+    vote_result = vote_weight.most_common(n=1)[0][0]
+    return vote_count[vote_result], vote_result
 
 
 def get_query_results(selected_instance, oracles, names=None):
-- 
2.43.0


From edf6077e5e4267468e1540b98cb17b8259fda779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 091/114] fix: get_query_results asks only the given oracles of
 a list

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 7f1415c..321f42f 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -128,7 +128,7 @@ def get_query_results(selected_instance, oracles, names=None):
             raise TypeError("The type of parameter oracles must be a list or alipy.oracle.Oracles object.")
         labeling_results = []
         if oracle_type == 'list':
-            for i in oracles.names() if oracle_type == 'oracles' else range(len(oracles)):
+            for i in range(len(oracles)) if names is None else names:
                 lab, co = oracles[i].query_by_index(selected_instance)
                 labeling_results.append(lab[0])
                 costs.append(np.sum(co))
-- 
2.43.0


From bd8e66256b56b1795fcebea06c84f27b56bdaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 092/114] fix: CEAL evaluates the cost of the oracles when
 asked to

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 321f42f..21557fc 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -298,7 +298,7 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a Oracles object is given, the oracle name will be returned.
         """
         n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
-        eval_cost = kwargs.pop('n_neighbors', False)
+        eval_cost = kwargs.pop('eval_cost', False)
         Q_table, oracle_ind_name_dict = self._calc_Q_table(label_index, unlabel_index, self._oracles, predict,
                                                            n_neighbors=n_neighbors, eval_cost=eval_cost)
         # get the instance-oracle pair
-- 
2.43.0


From f318d6308d5573469a79ddbdb6d8ef09aa34d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 093/114] fix: the noisy oracle strategies return an instance
 and a list of oracles whatever the pool size

---
 alipy/query_strategy/noisy_oracles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 21557fc..75db28b 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -299,6 +299,8 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
         """
         n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
         eval_cost = kwargs.pop('eval_cost', False)
+        if len(unlabel_index) == 0:
+            return [], []
         Q_table, oracle_ind_name_dict = self._calc_Q_table(label_index, unlabel_index, self._oracles, predict,
                                                            n_neighbors=n_neighbors, eval_cost=eval_cost)
         # get the instance-oracle pair
@@ -350,8 +352,6 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
         num_of_neighbors = n_neighbors
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         Q_table = np.zeros((len(oracles), len(unlabel_index)))  # row:oracle, col:ins
         spv = np.shape(pred_unlab)
@@ -447,8 +447,8 @@ class QueryNoisyOraclesSelectInstanceUncertainty(BaseNoisyOracleQuery, metaclass
         assert (isinstance(label_index, collections.Iterable))
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return [], []
 
         # select instance and oracle
         unc = QueryInstanceUncertainty(measure='least_confident')
@@ -611,7 +611,7 @@ class QueryNoisyOraclesAll(QueryNoisyOraclesSelectInstanceUncertainty):
         oracles_ind: list
             The indexes of selected oracles.
         """
-        return self._oracle_ind_name_dict.values()
+        return list(self._oracle_ind_name_dict.values())
 
 
 class QueryNoisyOraclesRandom(QueryNoisyOraclesSelectInstanceUncertainty):
-- 
2.43.0


From 13fb7a24c47992bbe1cf3049096a487bea4a4167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 094/114] fix: CEAL works with a single initially labeled
 instance

---
 alipy/query_strategy/noisy_oracles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 75db28b..4407444 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -262,7 +262,7 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             model.fit(self.X[label_index], self.y[label_index])
         pred_unlab, _ = _get_proba_pred(self.X[unlabel_index], model)
 
-        n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind) - 1)
+        n_neighbors = max(1, min(kwargs.pop('n_neighbors', 10), len(self._ini_ind) - 1))
         return self.select_by_prediction_mat(label_index, unlabel_index, pred_unlab,
                                              n_neighbors=n_neighbors, eval_cost=eval_cost)
 
@@ -297,7 +297,7 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a list is given, the index of oracle will be returned.
             If a Oracles object is given, the oracle name will be returned.
         """
-        n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
+        n_neighbors = max(1, min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1))
         eval_cost = kwargs.pop('eval_cost', False)
         if len(unlabel_index) == 0:
             return [], []
-- 
2.43.0


From 76c3afe8bb2abed6376d700fa5ad89275b20da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 095/114] fix: IEthresh keeps querying its only oracle

---
 alipy/query_strategy/noisy_oracles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 4407444..358f401 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -531,7 +531,8 @@ class QueryNoisyOraclesIEthresh(QueryNoisyOraclesSelectInstanceUncertainty):
             The UI(a) value.
         """
         n = len(self._oracles_iterset)
-        t_crit_val = scipy.stats.t.isf([alpha / 2], n - 1)[0]
+        # the t-distribution is not defined for one oracle, which has no one to be compared with
+        t_crit_val = scipy.stats.t.isf([alpha / 2], n - 1)[0] if n > 1 else 0
         reward_arr = []
         for ind in oracle_history.keys():
             if oracle_history[ind] == majority_vote_result[ind]:
-- 
2.43.0


From 2a1305337b257e19fb2944aca24f7daf6dc0c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 096/114] fix: multi-label QUIRE pairs every label with its own
 index and inverts the remaining block correctly

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 9f5935a..bfde5c5 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -466,7 +466,8 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
         Sidx = label_index.get_onedim_index(order='F', ins_num=self.X.shape[0])
         Uidx = np.sort(Uidx)
         Sidx = np.sort(Sidx)
-        Ys = [self.y[lind] for lind in label_index]
+        # the labels, in the order of the sorted indexes
+        Ys = [self.y[sind % self.X.shape[0], sind // self.X.shape[0]] for sind in Sidx]
         # for lind in label_index:
         #     Sidx.append(lind[0])
         #     Ys.append(self.y[lind])
@@ -485,7 +486,7 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             tmp0 = Lqq  # +Ys'*Lss*Ys;
 
             b = -(LL[i, tmpidx])
-            invLrr = LL[np.ix_(tmpidx, tmpidx)] - b.T.dot(b) / LL[i, i]
+            invLrr = LL[np.ix_(tmpidx, tmpidx)] - np.outer(b, b) / LL[i, i]
             vt1 = YsLsu[tmpidx]
             vt2 = 2 * YsLsu[i]
             tmp1 = vt1 + Lqr
-- 
2.43.0


From f9e4499c32ba0491eaca1ab15058f637b4cdccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 097/114] fix: a non-incremental fit of the label ranking model
 starts from the initial model again

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index bfde5c5..98a66e4 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -142,8 +142,9 @@ class _LabelRankingModel_MatlabVer:
         if len(np.nonzero(targets == 2.0)[0]) == 0:
             targets = np.hstack((targets, 2 * np.ones((targets.shape[0], 1))))
         data = np.asarray(data)
-        B = np.asarray(B)
-        V = np.asarray(V)
+        # updated in place below, the given model has to stay as it is
+        B = np.array(B)
+        V = np.array(V)
 
         n, n_class = np.shape(targets)
         row_ind, col_ind = np.nonzero(targets >= 1)
-- 
2.43.0


From e0084da4f2f040f699a1705a93dfc87d8886888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 098/114] fix: a label that is always -1 is predicted
 irrelevant by binary relevance

---
 alipy/query_strategy/multi_label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 98a66e4..8313620 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -642,7 +642,8 @@ class DummyClf():
 
     def predict_proba(self, X):
         ret = np.zeros((len(X), 2))
-        ret[:, self.cls] = 1.
+        # labels are written as 0 / 1 or as -1 / 1
+        ret[:, 1 if self.cls > 0 else 0] = 1.
         return ret
 
 
-- 
2.43.0


From 348bb692861a1dc80d8a33e5f49c45134cd2c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 099/114] fix: MMC counts the relevant labels of instances also
 when irrelevant ones are written as -1

---
 alipy/query_strategy/multi_label.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8313620..2de2c11 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -904,11 +904,13 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
+        # number of relevant labels, irrelevant ones are written as 0 or as -1
+        num_lbl = (self.y[label_index] > 0).sum(axis=1)
+        if len(np.unique(num_lbl)) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
-        lr.fit(trnf, self.y[label_index].sum(axis=1))
+        lr.fit(trnf, num_lbl)
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
         poolf = np.sort(poolf, axis=1)[:, ::-1]
-- 
2.43.0


From d0ac10c68badb6c268454a11684ac2726efc4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 100/114] fix: MMC selects also when an instance has zero
 probability for every label

---
 alipy/query_strategy/multi_label.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 2de2c11..b4426c6 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -903,7 +903,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         f = poolf * 2 - 1
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
-        trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
+        trnf /= np.tile(np.fmax(trnf.sum(axis=1), np.finfo(float).tiny).reshape(-1, 1), (1, trnf.shape[1]))
         # number of relevant labels, irrelevant ones are written as 0 or as -1
         num_lbl = (self.y[label_index] > 0).sum(axis=1)
         if len(np.unique(num_lbl)) == 1:
@@ -914,7 +914,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
         poolf = np.sort(poolf, axis=1)[:, ::-1]
-        poolf /= np.tile(poolf.sum(axis=1).reshape(-1, 1), (1, poolf.shape[1]))
+        poolf /= np.tile(np.fmax(poolf.sum(axis=1), np.finfo(float).tiny).reshape(-1, 1), (1, poolf.shape[1]))
         pred_num_lbl = lr.predict(poolf).astype(int)
 
         yhat = -1 * np.ones((len(X_pool), self.n_labels), dtype=int)
-- 
2.43.0


From 6385c7473ff99c431ea5e2827b77d3e008b64654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:54 +0000
Subject: [PATCH 101/114] fix: minmax_scale and the Gaussian kernel do not
 overflow small integer types

---
 alipy/data_manipulate/datapreprocess.py | 5 ++++-
 alipy/utils/misc.py                     | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index 0d6ac62..b3ebaf0 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -70,7 +70,10 @@ def minmax_scale(X, feature_range=(0, 1)):
                             "You may consider to use MaxAbsScaler instead.")
     if not isinstance(X, np.ndarray):
         X = np.asarray(X)
-        
+    if X.dtype.kind in 'biu':
+        # the difference of two integers may not fit into their type
+        X = X.astype(float)
+
     data_min = np.nanmin(X, axis=0)
     data_max = np.nanmax(X, axis=0)
     data_dis = data_max - data_min
diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 24272f0..e60aafc 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -70,6 +70,9 @@ def get_gaussian_kernel_mat(X, sigma=1.0, check_arr=True):
     else:
         if not isinstance(X, np.ndarray):
             X = np.asarray(X)
+    if X.dtype.kind in 'biu':
+        # the squares of small integers may not fit into their type
+        X = X.astype(float)
     n = X.shape[0]
     tmp = np.sum(X ** 2, axis=1).reshape(1, -1)
     return np.exp((-tmp.T.dot(np.ones((1, n))) - np.ones((n, 1)).dot(tmp) + 2 * (X.dot(X.T))) / (2 * (sigma ** 2)))
-- 
2.43.0


From 177e5f47931d578f867952796ad36b324ca09ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:54 +0000
Subject: [PATCH 102/114] fix: StandardScale maps a constant feature to zero
 whatever its mean rounds to

---
 alipy/data_manipulate/datapreprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index b3ebaf0..5a0b0e3 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -113,8 +113,10 @@ def StandardScale(X):
     if not(hasattr(X, 'mean') and hasattr(X, 'var')):
         raise TypeError("X array does not has mean or var methods")
     
-    data_mean = X.mean(axis=0)
-    data_var = _handle_zeros_in_scale(X.var(axis=0))
+    # the rounding error of the mean of a constant feature is not a variance
+    constant = X.max(axis=0) == X.min(axis=0)
+    data_mean = np.where(constant, X[0], X.mean(axis=0))
+    data_var = _handle_zeros_in_scale(np.where(constant, 0., X.var(axis=0)))
     x_StdS = (X - data_mean) / np.sqrt(data_var)
 
     return x_StdS
-- 
2.43.0


From e535bf4ac544c24845e80f8cae9ee4b6f3bb7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 103/114] fix: the query history of Oracles does not change
 with the caller's lists

---
 alipy/oracle/oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b398b69..bd81764 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -618,7 +618,8 @@ class Oracles:
 
     def _update_query_history(self, oracle_name, query_result, index_for_querying):
         """record the query history"""
-        self.query_history.append((oracle_name, query_result, index_for_querying))
+        # the caller may go on using what it passed and received
+        self.query_history.append(copy.deepcopy((oracle_name, query_result, index_for_querying)))
 
     def __repr__(self):
         """return summaries of each oracle.
-- 
2.43.0


From ff477149905dac2819b6bc7b4ed8f9704ba5e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:09 +0000
Subject: [PATCH 104/114] fix: an oracle keeps its labels whatever the caller
 does with an answer

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index bd81764..55d7098 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -196,10 +196,10 @@ class Oracle(interface.BaseVirtualOracle):
         for k in indexes:
             if k in self._ind2all.keys():
                 if self._cost_flag:
-                    sup_info.append(self._ind2all[k][0])
+                    sup_info.append(copy.copy(self._ind2all[k][0]))
                     cost.append(self._ind2all[k][1])
                 else:
-                    sup_info.append(self._ind2all[k])
+                    sup_info.append(copy.copy(self._ind2all[k]))
                     cost.append(1)
             else:
                 self._do_missing(k)
-- 
2.43.0


From 3a2c2418d2eeb4a62c3b38e5410fa13ded790799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:25 +0000
Subject: [PATCH 105/114] fix: an oracle keeps its own copy of the labels and
 costs it is built with

---
 alipy/oracle/oracle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 55d7098..9398e94 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -57,7 +57,7 @@ class Oracle(interface.BaseVirtualOracle):
             raise ValueError("Different length of parameters found. "
                              "All parameters should be list type with the same length")
 
-        labels = check_array(labels, ensure_2d=False, dtype=None)
+        labels = check_array(labels, ensure_2d=False, dtype=None, copy=True)
         if isinstance(labels[0], np.generic):
             # self._label_type = type(np.asscalar(labels[0])) # deprecated in numpy v1.16
             self._label_type = type(labels[0].item())
@@ -328,7 +328,7 @@ class OracleQueryMultiLabel(Oracle):
     """
 
     def __init__(self, labels, examples=None, indexes=None, cost=None):
-        labels = check_array(labels, ensure_2d=True, dtype=None)
+        labels = check_array(labels, ensure_2d=True, dtype=None, copy=True)
         self._label_shape = np.shape(labels)
         if cost is not None:
             sp_cost = np.shape(cost)
@@ -339,7 +339,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
-                cost = np.asarray(cost)
+                cost = np.array(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
-- 
2.43.0


From 6a8216c574ad4afa6a2c1ca999b137d6cd2bc831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:28 +0000
Subject: [PATCH 106/114] fix: the query history of a repository does not
 change with the caller's lists

---
 alipy/oracle/knowledge_repository.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 2a0d5d6..c210350 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -315,7 +315,8 @@ class ElementRepository(BaseRepository):
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        # the caller may go on using what it passed
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """Return full version of query history"""
@@ -597,7 +598,8 @@ class MatrixRepository(BaseRepository):
 
     def _update_query_history(self, labels, indexes, cost):
         """record the query history"""
-        self._query_history.append(((labels, cost), indexes))
+        # the caller may go on using what it passed
+        self._query_history.append(copy.deepcopy(((labels, cost), indexes)))
 
     def full_history(self):
         """return full version of query history"""
-- 
2.43.0


From cb670f0180c57d2da56625814d54c798656cc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 107/114] fix: a repository keeps its own copy of the labels
 and examples it holds

---
 alipy/oracle/knowledge_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index c210350..5732e7e 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -84,7 +84,7 @@ class ElementRepository(BaseRepository):
             examples = [tuple(vec) for vec in examples]
             self._exa2ind = dict(zip(examples, self._indexes))
             self._ind2exa = dict(zip(self._indexes, examples))
-        self._ind2label = dict(zip(self._indexes, labels))
+        self._ind2label = dict(zip(self._indexes, copy.deepcopy(labels)))
 
         # record
         self.cost_inall = 0
@@ -128,7 +128,7 @@ class ElementRepository(BaseRepository):
 
         if select_index not in self._ind2label:
             self._indexes.append(select_index)
-        self._ind2label[select_index] = label
+        self._ind2label[select_index] = copy.deepcopy(label)
         return self
 
     def _forget_example(self, index):
@@ -357,11 +357,11 @@ class MatrixRepository(BaseRepository):
         if not check_one_to_one_correspondence(labels, indexes, examples):
             raise ValueError("Different length of the given parameters found.")
 
-        self._y = check_array(labels, ensure_2d=False, dtype=None)
+        self._y = check_array(labels, ensure_2d=False, dtype=None, copy=True)
         self._indexes = list(indexes)  # an index can be a tuple
         self._instance_flag = False if examples is None else True
         if self._instance_flag:
-            self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C')
+            self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C', copy=True)
         else:
             self._X = None
 
@@ -552,7 +552,7 @@ class MatrixRepository(BaseRepository):
                 warnings.warn("Example %s for retrieving is not in the repository, skip." % str(examples),
                               category=ValidityWarning)
                 return None, None
-            return self._X[ind,], self._y[ind,]
+            return copy.copy(self._X[ind,]), copy.copy(self._y[ind,])
         elif examples.ndim == 2:
             ind = []
             for i, exa in enumerate(examples):
-- 
2.43.0


From 04324555dcbfec0acd94a9c007ccf9bc66f95f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:34 +0000
Subject: [PATCH 108/114] fix: the completed matrix of AFASMC is real when
 there are more features than instances

---
 alipy/query_strategy/query_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 691ec17..cf11b3c 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -48,7 +48,7 @@ def _svd_threshold(svd_obj, lambdadL):
     eig_obj_timer = 1e20
     while (eig_tag == 0) and (eig_obj_timer >= 1e8):
         try:
-            D, V = np.linalg.eig(eig_obj2)
+            D, V = np.linalg.eigh(eig_obj2)
             sorted_args = np.argsort(D)
             V = V[:, sorted_args]
             D = D[sorted_args]
-- 
2.43.0


From 0c1f65ab3746ebcc4ed992e5084269538d279f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:34 +0000
Subject: [PATCH 109/114] fix: label ranking average precision of unsigned,
 small integer and boolean scores

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 616319f..407a588 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -706,7 +706,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
         raise ValueError("{0} format is not supported".format(y_type))
 
     y_true = csr_matrix(y_true)
-    y_score = -y_score
+    y_score = -np.asarray(y_score, dtype=float)
 
     n_samples, n_labels = y_true.shape
 
-- 
2.43.0


From aafec3924f942aa86180034c089bb330d2706277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 110/114] fix: query by committee with KL divergence when a
 bootstrap sample misses a class

---
 alipy/query_strategy/query_labels.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index fa1fb21..cabe4df 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -435,7 +435,17 @@ class QueryInstanceQBC(BaseIndexQuery):
         if self._disagreement == 'vote_entropy':
             score = self.calc_vote_entropy([estimator.predict(unlabel_x) for estimator in est_arr])
         else:
-            score = self.calc_avg_KL_divergence([estimator.predict_proba(unlabel_x) for estimator in est_arr])
+            proba = []
+            for estimator, samples in zip(est_arr, bagging.estimators_samples_):
+                pv = estimator.predict_proba(unlabel_x)
+                if pv.shape[1] != len(bagging.classes_):
+                    # the bootstrap sample missed some classes, they are impossible for this estimator
+                    trained_classes = np.searchsorted(bagging.classes_, np.unique(label_y[samples]))
+                    aligned = np.zeros((len(unlabel_x), len(bagging.classes_)))
+                    aligned[:, trained_classes] = pv if len(trained_classes) > 1 else 1.0
+                    pv = aligned
+                proba.append(pv)
+            score = self.calc_avg_KL_divergence(proba)
         return unlabel_index[nlargestarg(score, batch_size)]
 
     def select_by_prediction_mat(self, unlabel_index, predict, batch_size=1):
-- 
2.43.0


From 532d5759ed8abc6df829c97c3ab8a91784407c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 111/114] fix: a copy of an emptied multi label collection
 keeps its label size

---
 alipy/index/index_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 7104183..e582524 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -278,6 +278,8 @@ class MultiLabelIndexCollection(IndexCollection):
     def __init__(self, data=None, label_size=None):
         if data is None or len(data) == 0:
             self._innercontainer = set()
+            if label_size is None and isinstance(data, MultiLabelIndexCollection):
+                label_size = data._label_size
             if label_size is None:
                 warnings.warn("This collection does not have a label_size value, set it manually or "
                               "it will raise when decomposing indexes.",
-- 
2.43.0


From 0dc6508935f9c1b856a9f9d251a0fd81279661e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:37 +0000
Subject: [PATCH 112/114] fix: a copy of an emptied index collection keeps its
 element type

---
 alipy/index/index_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index e582524..4112266 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -65,6 +65,8 @@ class IndexCollection(BaseCollection):
     def __init__(self, data=None):
         if data is None or (not np.isscalar(data) and len(data) == 0):
             self._innercontainer = []
+            if isinstance(data, IndexCollection):
+                self._element_type = data.get_elementType()
         else:
             if isinstance(data, IndexCollection):
                 self._innercontainer = copy.deepcopy(data.index)
-- 
2.43.0


From d640e9bc7cfcaf80669abc9b6368eccec6fadcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:13 +0000
Subject: [PATCH 113/114] fix: results given to an analyser as lists do not
 change with the caller's lists

---
 alipy/experiment/experiment_analyser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index e2dc913..159bc91 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -374,7 +374,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             # and thus we will not do further checking on it.
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         elif result_type == 1:
-            self._data_extracted[method_name] = copy.copy(method_results)
+            self._data_extracted[method_name] = copy.deepcopy(method_results)
             self._is_all_stateio = False
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         else:
@@ -590,7 +590,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             # and thus we will not do further checking on it.
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         elif result_type == 2:
-            self._data_extracted[method_name] = copy.copy(method_results)
+            self._data_extracted[method_name] = copy.deepcopy(method_results)
             self._is_all_stateio = False
             self._data_summary[method_name] = _ContentSummary(method_results=method_results, method_type=result_type)
         else:
-- 
2.43.0


From ea41445ee645bf0985617ec41cb11445c8e0faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:06 +0000
Subject: [PATCH 114/114] fix: MMC and Adaptive do not learn the labels of
 instances selected earlier in the same batch

---
 alipy/query_strategy/multi_label.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index b4426c6..6df935b 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -969,8 +969,8 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         
         select_index = []
         for i in range(batch_size):
+            # the labels of the selected instances are not known before the whole batch is queried
             selected = self.sequential_select(label_index, unlabel_index)
-            label_index.update(selected)
             unlabel_index.difference_update(selected)
             select_index.append((selected, ))
 
@@ -1158,8 +1158,8 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
         
         select_index = []
         for i in range(batch_size):
+            # the labels of the selected instances are not known before the whole batch is queried
             selected = self.sequential_select(label_index, unlabel_index)
-            label_index.update(selected)
             unlabel_index.difference_update(selected)
             select_index.append((selected, ))
 
-- 
2.43.0

