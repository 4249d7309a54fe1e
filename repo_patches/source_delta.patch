From 557fe9cfb33b3511cf83ba85108c4c8d78dbcfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 01/51] fix: look up on/across block values by label, not by
 position

After a generic filter dropped items from a 'by' block, the block indices
are labels of the filtered frame, so that db.iloc raised an IndexError or
silently returned the values of another item.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..51121b7 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -818,7 +818,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
-- 
2.43.0


From e8e50b742a9454833ce57e5e035d158293d488f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:30 +0000
Subject: [PATCH 02/51] fix: skip the 'by' blocks emptied by a generic filter

The Task constructor raised a ValueError (max of an empty array) when a
generic filter removed all the items of a 'by' block.
---
 ABXpy/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 51121b7..161815c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -315,6 +315,8 @@ class Task(object):
 
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
+                if by_frame.empty:
+                    continue
 
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
-- 
2.43.0


From cf1ae77c63253aa8a3922eb9f629c715f6383b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:30 +0000
Subject: [PATCH 03/51] fix: keep items aligned with their location when rows
 are dropped

Dropping blank rows or rows with a missing label left gaps in the index
of the database, which is then used as a position in the location table:
items got the file, onset and offset of another one, or an IndexError.
---
 ABXpy/database/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..827b38c 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -11,7 +11,7 @@ import ABXpy.misc.tinytree as tinytree
 def read_table(filename):
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
     # removes row with all null values (None or NaN...)
-    db = db.dropna(how='all')
+    db = db.dropna(how='all').reset_index(drop=True)
     return db
 
 
@@ -61,8 +61,8 @@ def load(filename, features_info=False):
     if any(nanrows):
         dropped = db[nanrows]
         dropped.to_csv(basename + '-removed' + ext)
-        db = db[~ nanrows]
-    feat_db = feat_db[~ nanrows]
+        db = db[~ nanrows].reset_index(drop=True)
+        feat_db = feat_db[~ nanrows.values].reset_index(drop=True)
     # not so verbose print('** Warning ** ' + len(nanrows) + ' items were
     # removed because of missing information. The removed items are listed in'
     # + basename + '-removed.item'
-- 
2.43.0


From e9e019ea7fef66834a36c55dbbee2565655327eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:30 +0000
Subject: [PATCH 04/51] fix: pass the main file name when loading auxiliary
 databases

The recursive call missed an argument, raising a TypeError as soon as an
auxiliary file exists.
---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 827b38c..cf4d876 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From 9b3f681871ebb0616b7724d78009cb54dae60a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 05/51] fix: store triplets in a type wide enough for the item
 indices

The integer type was chosen from the number of triplets only: with few
triplets over many items the indices wrapped around.
---
 ABXpy/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 161815c..c2115b4 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -734,6 +734,10 @@ class Task(object):
         by_block_indices = [0]
         self.current_index = 0
 
+        # the triplets are made of indices of items, which can be
+        # greater than the number of triplets
+        max_ind = max(np.max(db.index.values) for db in self.by_dbs.values())
+
         # fill output file with list of needed ABX triplets, it is done
         # independently for each 'by' value
         with np2h5.NP2H5(h5file=output) as fh:
@@ -743,7 +747,8 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(
+                    max(self.total_n_triplets, max_ind)),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
-- 
2.43.0


From 6c3b65b2d740ec82252996b98bb227b0c0816786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 06/51] fix: reorder the A regressors along with the triplets

Without ABX filters the A regressors were not permuted with the
triplets (nor sampled by the threshold), so they described other
triplets.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index c2115b4..8d36490 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1146,7 +1146,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From 88734d0812bfb80e67b4669e07ffaf9f939c3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 07/51] fix: do not sample triplets with a too narrow integer
 type

The positions sampled in a block were stored in the type fitted to the
number of regressor combinations: they wrapped around in blocks of more
than 255 triplets, and the sampling never ended with a threshold above
255.
---
 ABXpy/task.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 8d36490..b6f79ab 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1202,8 +1202,7 @@ def sort_and_threshold(permut, new_index, ind_type,
     i = 0
     for c in counts:
         if threshold and c > threshold:
-            sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+            sampled_idx = sampler.sample_without_replacement(threshold, c)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From 52668b7a9ec418d2351e884607addc99c0720707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 08/51] fix: make the computation of nb_levels work again

DataFrame.ix was removed from pandas (print_stats and abx-task
--stats-only crashed), and block indices are labels, not positions.
---
 ABXpy/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index b6f79ab..6879939 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1024,7 +1024,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1062,8 +1062,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From 1d30654db2beffae9dc2e5db2985e75ee53868c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 09/51] fix: count the levels of X as the triplets do with
 several across

With several 'across' attributes X must differ from A on each of them,
nb_levels also counted the X differing on some of them only.
---
 ABXpy/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 6879939..20915fe 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1052,8 +1052,11 @@ class Task(object):
                             list(set(B).difference(A)), dtype=self.types[by])
 
                     # remove X with the same 'across' than A
-                    X = np.array(
-                        list(set(X).difference(A)), dtype=self.types[by])
+                    if type(across) is tuple:
+                        X = set(X) & set(self.antiacross_blocks[by][across])
+                    else:
+                        X = set(X).difference(A)
+                    X = np.array(list(X), dtype=self.types[by])
 
                     if B.size > 0 and X.size > 0:
                         # case were there was no across specified is different
-- 
2.43.0


From 667d797e63b8c0824b3e421476e958f3b6e3dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 10/51] fix: give the 'by' variables to the generic filters

A generic filter using both a 'by' column and another one raised a
NameError.
---
 ABXpy/sideop/filter_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
-- 
2.43.0


From 7a2b5944dff1f9ff7ae66a17fc54b6c605532a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 11/51] fix: allow non ASCII labels in regressors

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8f54dc3..2810b9b 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -360,7 +360,7 @@ def get_dtype(data):
 
 def get_array(data):
     if isinstance(data[0], str):
-        return np.array(data, dtype='S')
+        return np.array([d.encode('utf8') for d in data], dtype='S')
     return data
 
 
-- 
2.43.0


From 6a88cdd3e1afbe22e842375b47122ae9d595e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 12/51] fix: python 3 iteration and a typo in H5IO

Writing with iterate=True raised an AttributeError, and so did opening
an existing file with fused datasets (KeyError).
---
 ABXpy/h5tools/h5io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 2810b9b..0ac00da 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -154,7 +154,7 @@ class H5IO(object):
                         g['fused'][fused_dataset]['datasets'][...])
                     if fused_dataset + '/key_weights' in g['fused']:
                         self.key_weights[fused_dataset] = g['fused'][
-                            fused_dataset]['key_weigths'][...]
+                            fused_dataset]['key_weights'][...]
                     else:
                         self.nb_levels[fused_dataset] = g['fused'][
                             fused_dataset]['nb_levels'][...]
@@ -190,7 +190,7 @@ class H5IO(object):
         # if necessary, instantiate datasets
         if self.is_empty:
             if iterate:
-                sample_data = data.next()
+                sample_data = next(data)
             else:
                 sample_data = data
             self.__initialize_datasets__(sample_data)
-- 
2.43.0


From 61c8c272ad0685726667357632e32ddf858497a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 13/51] fix: make IncrementalSampler iterable in python 3, and
 for K = 0

---
 ABXpy/sampling/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..632fe71 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -42,7 +42,7 @@ class IncrementalSampler(object):
         # step used when iterating over the sampler
         if step is None:
             # 10**4 samples by iteration on average
-            self.step = 10 ** 4 * N // K
+            self.step = 10 ** 4 * N // max(K, 1)
         else:
             self.step = step
 
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next  # python 3 name
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From 1fcfe803f635de3538b6fe62fff33c5942307c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 14/51] fix: mark the distance file as done with several jobs
 too

---
 ABXpy/distances/distances.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..25fce62 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,9 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From ebb3c7f4431fc851fce65b13aca279d7a6b5f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 15/51] fix: keep the block bounds of the distance jobs integer

Under python 3 the division made them floats, which cannot index the
pairs, when the blocks are limited by buffer_max_size.
---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 25fce62..dccfff2 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        buffer_max_size * 1000000 // 8)
     by = []
     start = []
     stop = []
-- 
2.43.0


From eef5a4bea32b39ed43b99f09bf735e9872af69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 16/51] fix: release the distance file lock when a job fails

A job failing while it holds the lock left it acquired: the other jobs,
and then the main process, waited for it forever.
---
 ABXpy/distances/distances.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index dccfff2..87f4f3c 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -201,17 +201,20 @@ def run_distance_job(job_description, distance_file, distance,
         # load pandas dataframe containing info for loading the features
         if synchronize:
             distance_file_lock.acquire()
-        store = pandas.HDFStore(pair_file)
-        by_db = store['feat_dbs/' + by]
-        store.close()
-        # load pairs to be computed
-        # indexed relatively to the above dataframe
-        with h5py.File(pair_file, 'r') as fh:
-            attrs = fh['unique_pairs'].attrs[by]
-            pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
-            base = attrs[0]
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            store = pandas.HDFStore(pair_file)
+            by_db = store['feat_dbs/' + by]
+            store.close()
+            # load pairs to be computed
+            # indexed relatively to the above dataframe
+            with h5py.File(pair_file, 'r') as fh:
+                attrs = fh['unique_pairs'].attrs[by]
+                pair_list = fh['unique_pairs/data'][
+                    attrs[1]+start:attrs[1]+stop, 0]
+                base = attrs[0]
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
         A = np.mod(pair_list, base)
         B = pair_list // base
@@ -269,10 +272,12 @@ def run_distance_job(job_description, distance_file, distance,
                 raise
         if synchronize:
             distance_file_lock.acquire()
-        with h5py.File(distance_file, 'a') as fh:
-            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            with h5py.File(distance_file, 'a') as fh:
+                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
 
 # mem in megabytes
-- 
2.43.0


From 8dd92cee468bec572c350204712c56c1b647a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 17/51] fix: read the item names of current h5features files in
 verify

They are in the 'items' dataset, 'files' raised a KeyError. Accept the
tabs and blank lines that the item file parser accepts.
---
 ABXpy/verify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..72ae14b 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,10 +42,14 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        with h5py.File(features_file, 'r') as h5f:
+            group = h5f['features']
+            # 'files' is the name in old versions of h5features
+            files = set(group['items' if 'items' in group else 'files'][:])
         for line in f:
-            source = str.split(line, ' ')[0]
+            if not line.strip():
+                continue
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From 1b878e6f1a6e8ec0ccced4f44819abf558f421f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 18/51] fix: find the frames at mid-distance exactly in utw

The float computation missed some of them, e.g. for 14 and 25 frames.
---
 ABXpy/distances/metrics/utw.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..657588e 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,10 +38,11 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
-    l3 = np.floor(l2).astype(np.int)
-    integers = np.where(l2 == l3)[0]
-    non_integers = np.where(l2 != l3)[0]
+    # n1/n2*(l1+0.5) in integer arithmetic, so that floats rounding errors
+    # cannot hide the integer values
+    l3, remainder = np.divmod(n1*(2*l1+1), 2*n2)
+    integers = np.where(remainder == 0)[0]
+    non_integers = np.where(remainder != 0)[0]
     l3i = l3[integers]
     l1i = l1[integers]
     i_half = np.concatenate([l3i-1, l3i])
-- 
2.43.0


From 3e353115a16651b4dac212d639c768b2680dcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 19/51] fix: do not modify the features in place in divergences

---
 ABXpy/distances/metrics/kullback_leibler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..79120a6 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,8 +38,8 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From 71bee246c4be78dc5e6a512679abd3bc137d06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 20/51] fix: order the default regressors deterministically

They followed the iteration order of a set, so that the columns of the
results, and the triplets sampled for a given seed, changed from one
process to another with several 'across' attributes.
---
 ABXpy/sideop/regressor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..7a524e5 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,7 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From ea4f35ed8c9606deb4427b6e3eb49a56d66f7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 21/51] fix: support '/' in the 'by' labels when analyzing

---
 ABXpy/analyze.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..2de5cea 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -154,8 +154,7 @@ def analyze(task_file, score_file, result_file):
     """
     with open(result_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
-        aux = taskfid['regressors']
-        tfrk = aux[list(aux)[0]]
+        tfrk = taskfid['regressors'][taskfid['bys'][0]]
         regs = tfrk['indexed_datasets']
         string = u''
         for reg in regs:
-- 
2.43.0


From 107b880e16211ea859e24ecc879f9d051f409d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 22/51] fix: decode the regressors with integers in analyze

The computation in floats returned wrong labels when there are more
than 2**53 possible combinations of the regressors.
---
 ABXpy/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 2de5cea..53993b7 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -40,12 +40,12 @@ def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
     i = (a1*n2 + a2)*n3 + a3 ...
     """
-    res = np.empty((len(keys), len(max_ind)))
+    res = np.empty((len(keys), len(max_ind)), dtype=keys.dtype)
     aux = keys
     k = len(max_ind)
     for i in range(k - 1):
         res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])
-        aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])
+        aux = np.floor_divide(aux, max_ind[k - 1 - i])
     res[:, 0] = aux
     return res
 
-- 
2.43.0


From ee27ba307736fac2ffce7a46f2b3cd645cf96bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 23/51] fix: make the score file argument optional as
 documented

Omitting it raised a TypeError on the command line, and the default name
joined the paths of the task and distance files.
---
 ABXpy/score.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..53fab19 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -64,7 +64,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
         (basename_dist, _) = os.path.splitext(distance_file)
-        score_file = basename_task + '_' + basename_dist + '.score'
+        score_file = (basename_task + '_' + os.path.basename(basename_dist)
+                      + '.score')
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
     assert os.path.exists(distance_file), ('Cannot find distance file ' +
@@ -137,7 +138,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 32b94ed0af4fde1eab3e6eb72419938646306941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 24/51] fix: distinguish all the frames in the Levenshtein
 distance

editdistance compares the hashes of the frames: those containing -1 were
taken as equal to those with -2 instead.
---
 ABXpy/distance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..a1ea7de 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -61,7 +61,12 @@ def edit_distance(x, y):
 
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = editdistance.eval(totuple(x), totuple(y))
+        # number the distinct frames, because editdistance compares hashes,
+        # which are the same for -1 and -2
+        frames = {}
+        x, y = ([frames.setdefault(f, len(frames)) for f in totuple(a)]
+                for a in (x, y))
+        d = editdistance.eval(x, y)
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
-- 
2.43.0


From 524d85165473cab43b4e8e87fb1fc670edb44960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 25/51] fix: do not modify the features in place in
 normalize_cosine_distance

---
 ABXpy/distances/metrics/cosine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
-- 
2.43.0


From ed2fdc5236625b25c0c5146286fc44e6ed1f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 26/51] fix: pass its normalized argument to dtw in the example
 distances

They raised a TypeError on any non empty input.
---
 ABXpy/distances/example_distances.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/example_distances.py b/ABXpy/distances/example_distances.py
index 3c39923..54be673 100644
--- a/ABXpy/distances/example_distances.py
+++ b/ABXpy/distances/example_distances.py
@@ -4,7 +4,7 @@ import ABXpy.distances.metrics.kullback_leibler as kullback_leibler
 import numpy as np
 
 
-def dtw_cosine(x, y):
+def dtw_cosine(x, y, normalized=True):
     """Dynamic time warping cosine distance
 
     The "feature" dimension is along the columns and the "time"
@@ -13,7 +13,7 @@ def dtw_cosine(x, y):
     """
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = dtw.dtw(x, y, cosine.cosine_distance)
+        d = dtw.dtw(x, y, cosine.cosine_distance, normalized)
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
@@ -23,10 +23,10 @@ def dtw_cosine(x, y):
     return d
 
 
-def dtw_kl_divergence(x, y):
+def dtw_kl_divergence(x, y, normalized=True):
     """Kullback-Leibler divergence"""
     if x.shape[0] > 0 and y.shape[0] > 0:
-        d = dtw.dtw(x, y, kullback_leibler.kl_divergence)
+        d = dtw.dtw(x, y, kullback_leibler.kl_divergence, normalized)
     elif x.shape[0] == y.shape[0]:
         d = 0
     else:
-- 
2.43.0


From e4a8d058f79b37ee84699b5b5e950705d21a812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:28 +0000
Subject: [PATCH 27/51] fix: a column used as a filter

The evaluation wrapped the values in a list, so that np.where gave the
index of the (only) row of the list instead of those of the items: a
column given as filter never filtered what it said.
---
 ABXpy/dbfun/dbfun_column.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..bd3f0f3 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,5 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            # the values themselves, as for the other functions used as filters
+            return context[self.input_names[0]]
-- 
2.43.0


From 50ae22afd4654ad7da519f53223ee5a6ff4c17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 28/51] fix: end with an error when a distance worker is killed

multiprocessing.Pool replaces a worker which dies, or which returns an
exception that cannot be unpickled, but never completes its task: the
computation was waiting forever.
---
 ABXpy/distances/distances.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 87f4f3c..fb54422 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -6,12 +6,11 @@ import os
 import sys
 import warnings
 import h5features
+from concurrent.futures import ProcessPoolExecutor
 
 # FIXME Enforce single process usage when using python compiled with OMP
 # enabled
 
-# FIXME detect when multiprocessed jobs crashed
-
 # FIXME do a separate functions: generic load_balancing
 
 # FIXME write distances in a separate file
@@ -316,15 +315,14 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
     if n_cpu > 1:
         # use of a manager seems necessary because we're using a Pool...
         distance_file_lock = multiprocessing.Manager().Lock()
-        try:
-            pool = multiprocessing.Pool(n_cpu)
-            args = [(job, distance_file, distance, feature_files, feature_groups,
-                     splitted_features, i, normalized, distance_file_lock)
-                    for i, job in enumerate(jobs)]
-            pool.map(worker, args)
-        finally:
-            pool.close()
-            pool.join()
+        args = [(job, distance_file, distance, feature_files, feature_groups,
+                 splitted_features, i, normalized, distance_file_lock)
+                for i, job in enumerate(jobs)]
+        # unlike multiprocessing.Pool, this doesn't wait forever if a worker
+        # process is killed
+        with ProcessPoolExecutor(n_cpu) as pool:
+            for _ in pool.map(worker, args):
+                pass
     else:
         run_distance_job(
             jobs[0], distance_file, distance,
-- 
2.43.0


From 8cf7578a6c26614f0ea727883356d77ed742ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:20 +0000
Subject: [PATCH 29/51] fix: leave the 'done' flag of an existing distance file
 alone

The computation is refused in this case, but only after the flag of the
existing distances was reset.
---
 ABXpy/distances/distances.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index fb54422..be8861d 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -60,9 +60,10 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
+        # fails if the file already contains distances
         g = fh.create_group('distances')
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
+        fh.attrs.create('done', False)
     """
     #### Load balancing ####
     Heuristic: each process should have approximately
-- 
2.43.0


From bde71ec37ebac7d484f8893467ac64dba69c298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 30/51] fix: store the names of raw and fused datasets as text
 in h5io

---
 ABXpy/h5tools/h5io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 0ac00da..5d551fd 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -81,7 +81,7 @@ class H5IO(object):
                 raw_datasets = list(set(datasets).difference(indexed_datasets))
                 if raw_datasets:
                     g.create_dataset(
-                        'raw_datasets', data=raw_datasets, dtype=str_dtype)
+                        'raw_datasets', data=get_array(raw_datasets), dtype=str_dtype)
                 # indexed datasets
                 if indexed_datasets:
                     g.create_dataset(
@@ -100,12 +100,12 @@ class H5IO(object):
                 # fused datasets
                 if fused:
                     g.create_dataset(
-                        'fused_datasets', data=list(fused), dtype=str_dtype)
+                        'fused_datasets', data=get_array(list(fused)), dtype=str_dtype)
                     h = g.create_group('fused')
                     for name, fused_dsets in iteritems(fused):
                         i = h.create_group(name)
                         i.create_dataset(
-                            'datasets', data=fused_dsets, dtype=str_dtype)
+                            'datasets', data=get_array(fused_dsets), dtype=str_dtype)
                         nb_levels = [len(indexes[indexed_datasets_indexes[
                                          indexed_datasets.index(dset)]]) for dset in fused_dsets]
                         i.create_dataset(
-- 
2.43.0


From f11ad5344f11b3c737cf707658ac3089a00e0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 31/51] fix: datasets sharing an index which has another name
 in h5io

---
 ABXpy/h5tools/h5io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 5d551fd..6c46d9d 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -258,8 +258,10 @@ class H5IO(object):
         # encoded in the same matrix
         if self.non_fused_datasets:
             indexed_dims = [dims[dset] for dset in self.non_fused_datasets]
-            indexed_levels = [len(self.indexes[dset])
-                              for dset in self.non_fused_datasets]
+            indexed_levels = [
+                len(self.indexes[self.indexed_datasets_indexes[
+                    self.indexed_datasets.index(dset)]])
+                for dset in self.non_fused_datasets]
             dim = sum(indexed_dims)
             # smallest unsigned integer dtype compatible with all
             # indexed_datasets
-- 
2.43.0


From 77100feccd02f6b97aa671d55f2b24e7ad897dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:56 +0000
Subject: [PATCH 32/51] fix: detect fused datasets whose keys do not fit in 64
 bits

---
 ABXpy/h5tools/h5io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 6c46d9d..e98fed6 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -280,8 +280,11 @@ class H5IO(object):
         for fused_dset in self.fused_datasets:
             fused_dims = np.array(
                 [dims[dset] for dset in self.fused_members[fused_dset]], dtype=np.uint64)
-            max_key = np.prod(
-                self.nb_levels[fused_dset] ** fused_dims) - np.uint64(1)
+            # python integers, which do not overflow
+            max_key = 1
+            for n, d in zip(self.nb_levels[fused_dset], fused_dims):
+                max_key = max_key * int(n) ** int(d)
+            max_key = max_key - 1
             if max_key >= 2 ** 64:
                 raise ValueError('fused dataset %s in file %s cannot be created because 64 bits keys are not sufficient to cover all possible combinations of the fused datasets' % (
                     fused_dset, self.filename))
-- 
2.43.0


From 1512d783fe8450ac3e931330cf8403945532df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:31 +0000
Subject: [PATCH 33/51] fix: Jensen-Shannon and Hellinger return a matrix for a
 single pair of frames

np.float64() of a 1x1 array is a scalar, so js_divergence and
hellinger_distance could not be used in a DTW of one-frame items.
---
 ABXpy/distances/metrics/kullback_leibler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index 79120a6..24aa01f 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -80,7 +80,7 @@ def js_divergence(x, y, normalize=True):
         y * np.log(y), axis=1).reshape(y.shape[0], 1),
                   (1, x.shape[0])).transpose()
     res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)
-    return np.float64(res)
+    return np.float64(res).reshape(res.shape)
     # division by zero
 
 
@@ -108,7 +108,7 @@ def hellinger_distance(x, y):
     yy = np.tile(y, (x.shape[0], 1, 1))
     xx_yy = xx - yy
     res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
-    return np.float64((1. / np.sqrt(2)) * res)
+    return np.float64((1. / np.sqrt(2)) * res).reshape(res.shape)
 
 
 def is_distance(x, y):
-- 
2.43.0


From 1126440fb89bb522ea521466a950e46c8cb4b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:21 +0000
Subject: [PATCH 34/51] fix: auxiliary files whose keys look like numbers in
 one file only

The labels of a column are read as numbers when they all look like
numbers; an auxiliary file listing other labels (or only some of them)
could then not be merged with the items.
---
 ABXpy/database/database.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index cf4d876..b52044c 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -8,8 +8,8 @@ import ABXpy.misc.tinytree as tinytree
 
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
-def read_table(filename):
-    db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
+def read_table(filename, **kwargs):
+    db = pandas.read_csv(filename, sep='[ \t]+', engine='python', **kwargs)
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all').reset_index(drop=True)
     return db
@@ -90,6 +90,13 @@ def load_aux_dbs(basename, db, cols, mainfile):
                     basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
+                # a column can be read as numbers in one file only
+                if db[col].dtype == object and auxdb[col].dtype != object:
+                    auxdb[col] = read_table(auxfile, dtype={col: str})[col]
+                elif db[col].dtype.kind in 'iuf' and auxdb[col].dtype == object:
+                    auxdb[col] = pandas.to_numeric(
+                        auxdb[col], errors='coerce')
+                    auxdb = auxdb.dropna(subset=[col])
                 # merging the databases
                 db = pandas.merge(db, auxdb, on=col, how='left')
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
-- 
2.43.0


From 894d486960468ab689d1cb928ad81a4f98c35e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 35/51] fix: refuse auxiliary files which define a label more
 than once

The merge repeated the items having this label, and all the following
items got the location (file, onset, offset) of another one.
---
 ABXpy/database/database.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index b52044c..8de6fe7 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -98,6 +98,8 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxdb[col], errors='coerce')
                     auxdb = auxdb.dropna(subset=[col])
                 # merging the databases
+                assert not auxdb[col].duplicated().any(), (
+                    'A label is defined more than once in %s' % auxfile)
                 db = pandas.merge(db, auxdb, on=col, how='left')
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
         # conditions: "+str(newcol[1:len(newcol)])+" on key '"+newcol[0]+"'")
-- 
2.43.0


From ed55d8232a14c726821336e0a0084e5e1fc2d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 36/51] fix: do not remove the task file when only the
 statistics are asked

The existing output was removed before anything else, hence also with
--stats-only, or when the task specification was refused.
---
 ABXpy/task.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 20915fe..9f4f621 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1350,13 +1350,6 @@ def main():
     # get arguments from command line
     args = parse_arguments()
 
-    # checks on the output file
-    # if args.stats_only:
-    #     assert args.output, "The output file was not provided"
-    if args.output and os.path.exists(args.output):
-        warnings.warn("Overwriting task file " + args.output, UserWarning)
-        os.remove(args.output)
-
     # initialize the task
     task = Task(
         args.database, args.on,
@@ -1372,6 +1365,11 @@ def main():
         if args.tempdir and not os.path.exists(args.tempdir):
             os.makedirs(args.tempdir)
 
+        # checks on the output file
+        if args.output and os.path.exists(args.output):
+            warnings.warn("Overwriting task file " + args.output, UserWarning)
+            os.remove(args.output)
+
         # generate triplets and unique pairs
         task.generate_triplets(
             output=args.output,
-- 
2.43.0


From 03e94290ccbf5b602e44f2b9dd8e7fb09714e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 37/51] fix: check the arguments before removing the existing
 distance file

---
 ABXpy/distance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index a1ea7de..caa9166 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -139,14 +139,14 @@ def main():
 
     args = parser.parse_args()
 
-    if os.path.exists(args.output):
-        warnings.warn("Overwriting distance file " + args.output, UserWarning)
-        os.remove(args.output)
-
     # if dtw distance selected, fore use of normalization parameter :
     if (args.distance is None and args.normalization is None):
         sys.exit("ERROR : DTW normalization parameter not specified !")
 
+    if os.path.exists(args.output):
+        warnings.warn("Overwriting distance file " + args.output, UserWarning)
+        os.remove(args.output)
+
     run(args.features, args.task, args.output, normalized=args.normalization,
         distance=args.distance, njobs=args.njobs, group=args.group)
 
-- 
2.43.0


From 149211bcba55aaf5142b1a1847a01a9c8f5ee0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 38/51] fix: keep the existing distance or score file when an
 input is missing

---
 ABXpy/distance.py | 4 ++++
 ABXpy/score.py    | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index caa9166..18a64d3 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -143,6 +143,10 @@ def main():
     if (args.distance is None and args.normalization is None):
         sys.exit("ERROR : DTW normalization parameter not specified !")
 
+    for name in (args.features, args.task):
+        if not os.path.exists(name):
+            sys.exit("ERROR : no such file: {}".format(name))
+
     if os.path.exists(args.output):
         warnings.warn("Overwriting distance file " + args.output, UserWarning)
         os.remove(args.output)
diff --git a/ABXpy/score.py b/ABXpy/score.py
index 53fab19..2fc48ea 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -138,7 +138,8 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if args.score and os.path.exists(args.score):
+    if (args.score and os.path.exists(args.score) and
+            os.path.exists(args.task) and os.path.exists(args.distance)):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 0b83a1e5a4fa132c5cf3174eba095e673e1df087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 39/51] fix: close the descriptor of the temporary file of the
 pairs

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9f4f621..90be6a5 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -864,7 +864,8 @@ class Task(object):
         n_pairs_dict = {}
         max_ind_dict = {}
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            os.close(fd)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 1268d502e90a4c2f7dc27cb56b56e100c2f55cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 40/51] fix: remove the temporary directory of H5TMP when its
 file cannot be opened

---
 ABXpy/h5tools/h5_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index cd51fc0..d057d57 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -246,7 +246,12 @@ class H5TMP(object):
         self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')
 
     def __enter__(self):
-        self.tmp = h5py.File(self.tmpfile, 'a')
+        try:
+            self.tmp = h5py.File(self.tmpfile, 'a')
+        except Exception:
+            # __exit__ is not called when __enter__ fails
+            os.rmdir(self.tmpdir)
+            raise
         return self.tmp
 
     def __exit__(self, eType, eValue, eTrace):
-- 
2.43.0


From ae1c4532ef436c37e02f61048d85c8048b1eee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 41/51] fix: keep the cells of a task apart when there are many
 regressor labels

---
 ABXpy/task.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 90be6a5..610105c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -593,6 +593,15 @@ class Task(object):
                 if len(regs) != 0:
                     n_regs = np.max(regs, 0) + 1
 
+                    # beyond 2**53 the codes computed below would be rounded
+                    # (or overflow), number the combinations which occur
+                    # instead (dtype=object for python integers)
+                    if np.prod(n_regs, dtype=object) >= 2 ** 53:
+                        _, regs = np.unique(
+                            regs, axis=0, return_inverse=True)
+                        regs = np.reshape(regs, (-1, 1))
+                        n_regs = np.max(regs, 0) + 1
+
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-- 
2.43.0


From afc8b42ff2ca4e52fc8969e1f699c283146caf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 42/51] fix: analyze tasks with more than 2**63 combinations of
 regressor labels

---
 ABXpy/analyze.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 53993b7..22f6a08 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -82,6 +82,14 @@ def collapse(scorefile, taskfile, fid):
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
         n_indices = np.max(indices, 0) + 1
+        combinations = None
+        # too many combinations for an integer, number those which occur
+        # instead (dtype=object for python integers)
+        if np.prod(n_indices, dtype=object) >= 2 ** 63:
+            combinations, indices = np.unique(
+                indices, axis=0, return_inverse=True)
+            indices = np.reshape(indices, (-1, 1))
+            n_indices = np.max(indices, 0) + 1
         assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
         ind_type = fit_integer_type(np.prod(n_indices),
                                     is_signed=False)
@@ -99,6 +107,8 @@ def collapse(scorefile, taskfile, fid):
 
         # retrieving the triplet indices from the unique index.
         tmp = npdecode(unique_index, n_indices)
+        if combinations is not None:
+            tmp = combinations[tmp[:, 0]]
 
         regs = tfrk['indexed_datasets']
         indexes = []
-- 
2.43.0


From 0fba55c3a9cdc5801d7614e5f6e0b7fa4d904380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 43/51] fix: return 0 instead of nan in sqrt_js_divergence for
 frames that are equal

---
 ABXpy/distances/metrics/kullback_leibler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index 24aa01f..f2be518 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -85,7 +85,8 @@ def js_divergence(x, y, normalize=True):
 
 
 def sqrt_js_divergence(x, y):
-    return np.sqrt(js_divergence(x, y))
+    # rounding errors can make the divergence of equal frames negative
+    return np.sqrt(np.maximum(js_divergence(x, y), 0.))
 
 
 def hellinger_distance(x, y):
-- 
2.43.0


From c78cdc9b778edffbe7c40dc229831033532177fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 44/51] fix: compare the lines of the files in csv_cmp

---
 ABXpy/misc/items.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ABXpy/misc/items.py b/ABXpy/misc/items.py
index abf3f56..66bf555 100644
--- a/ABXpy/misc/items.py
+++ b/ABXpy/misc/items.py
@@ -102,7 +102,8 @@ def h5cmp(f1, f2):
 def csv_cmp(f1, f2, sep='\t'):
     """Returns True if the 2 CSV files are equals
 
-    The comparison is not sensitive to the columns order.
+    The comparison is not sensitive to the order of the columns and of
+    the lines.
 
     """
     csv1 = pandas.read_csv(f1, sep=sep)
@@ -111,4 +112,7 @@ def csv_cmp(f1, f2, sep='\t'):
     csv2 = pandas.read_csv(f2, sep=sep)
     csv2 = csv2.reindex(sorted(csv2.columns), axis=1)
 
-    return csv1.to_csv().split('\n').sort() == csv2.to_csv().split('\n').sort()
+    # sorted and not list.sort, which returns None
+    lines1 = sorted(csv1.to_csv(index=False).split('\n'))
+    lines2 = sorted(csv2.to_csv(index=False).split('\n'))
+    return lines1 == lines2
-- 
2.43.0


From d3afa7fe280cf01d7e52d5bdce1e1a8ab1b9be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 45/51] fix: refuse raw values which the type of their dataset
 cannot hold in h5io

---
 ABXpy/h5tools/h5io.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index e98fed6..c919f6c 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -308,8 +308,15 @@ class H5IO(object):
         data = self.__convert_input_data__(data)
         # write raw data
         for dset in self.raw_datasets:
-            # need type conversion sometimes here? (np.array(data[dset]))
-            self.out[dset].write(data[dset])
+            # the type of the dataset is the one of the first data written
+            values = data[dset]
+            stored = values.astype(self.out[dset].type)
+            same = (stored == values) | ((stored != stored) & (values != values))
+            if not(np.all(same)):
+                raise ValueError(
+                    'Dataset %s of file %s has type %s, which cannot hold all of the values written' % (
+                        dset, self.filename, self.out[dset].type))
+            self.out[dset].write(stored)
         # write indexed data
         if self.non_fused_datasets:
             # FIXME check that values are in correct range of index ?
-- 
2.43.0


From 1686418db595877e4230ed90da9d3f0320716d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 46/51] fix: separate the columns by spaces and tabs only in
 verify

---
 ABXpy/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index 72ae14b..1aae5cf 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -20,6 +20,7 @@ In python:
 
 import argparse
 import h5py
+import re
 
 
 def check(item_file, features_file, verbose=0):
@@ -49,7 +50,8 @@ def check(item_file, features_file, verbose=0):
         for line in f:
             if not line.strip():
                 continue
-            source = str.split(line)[0]
+            # columns are separated by spaces and tabs only, as in database.load
+            source = re.split('[ \t]+', line.strip(' \t\r\n'))[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From f5bf11f883bf63ffc5bb1fba3c306ff06851aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 47/51] fix: Tree.dump with Python 3

---
 ABXpy/misc/tinytree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/misc/tinytree.py b/ABXpy/misc/tinytree.py
index f16281c..f75df12 100644
--- a/ABXpy/misc/tinytree.py
+++ b/ABXpy/misc/tinytree.py
@@ -414,8 +414,8 @@ class Tree(object):
         """
         for i in self.preOrder():
             s = "\t" * (i.getDepth() - 1)
-            s += unicodedata.normalize('NFKD',
-                                       unicode(i)).encode('ascii', 'ignore')
+            s += unicodedata.normalize(
+                'NFKD', str(i)).encode('ascii', 'ignore').decode('ascii')
             outf.write(s)
             outf.write("\n")
 
-- 
2.43.0


From 4ca5cf6fb859f9e7dd10b59783f048cf8b8729b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 48/51] fix: open the score file for reading only in analyze

---
 ABXpy/analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 22f6a08..9ef7bd1 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -64,7 +64,7 @@ def collapse(scorefile, taskfile, fid):
 
     """
     # We make the assumption that everything fits in memory...
-    scorefid = h5py.File(scorefile, 'r+')
+    scorefid = h5py.File(scorefile, 'r')
     taskfid = h5py.File(taskfile, 'r')
     bys = taskfid['bys'][...]
     for by_idx, by in enumerate(bys):
-- 
2.43.0


From 99dadc0ba8ee742857a088f05ef454ea15e40bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 49/51] fix: open the task file for reading only in distance

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index be8861d..44e2f8c 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -202,7 +202,7 @@ def run_distance_job(job_description, distance_file, distance,
         if synchronize:
             distance_file_lock.acquire()
         try:
-            store = pandas.HDFStore(pair_file)
+            store = pandas.HDFStore(pair_file, mode='r')
             by_db = store['feat_dbs/' + by]
             store.close()
             # load pairs to be computed
-- 
2.43.0


From 282dd112d022c711284ead91358fbd63dd3185a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 50/51] fix: open the task file for reading only in score

---
 ABXpy/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index 2fc48ea..9006f9b 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -96,7 +96,7 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                 base = pair_attrs[0]
                 pair_key_type = type_fitting.fit_integer_type((base) ** 2 - 1,
                                                               is_signed=False)
-            with h52np.H52NP(task_file) as t:
+            with h5py.File(task_file, 'r') as fid, h52np.H52NP(fid) as t:
                 inp = t.add_subdataset('triplets', 'data', indexes=trip_attrs)
                 idx_start = trip_attrs[0]
                 for triplets in inp:
-- 
2.43.0


From bc79ea1d138334b983c1d2d17672fc0be4702ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 51/51] fix: refuse to score with a file of distances which are
 not all computed

---
 ABXpy/score.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index 9006f9b..110aa4c 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -72,6 +72,11 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                                            distance_file)
     assert not os.path.exists(score_file), ('score file already exist ' +
                                             score_file)
+    # a computation of the distances which did not end leaves some of them out
+    with h5py.File(distance_file, 'r') as d:
+        if not d.attrs.get('done', True):
+            raise IOError('The distances are not all computed in file '
+                          + distance_file)
     # with h5py.File(task_file) as t:
     #     bys = [by for by in t['triplets']]
     # FIXME skip empty by datasets, this should not be necessary anymore when
-- 
2.43.0

