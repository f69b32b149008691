From dd7a7944defcbfc3073cd5dd5341a7528312e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:39 +0000
Subject: [PATCH 01/59] fix: mark a Grouping as packed only after its packing
 arrays exist

pack_by_group() set _packed before computing iGroup/iFirstGroup/nCountGroup, so a failing
native call left the grouping permanently 'packed' with None arrays, and a second thread
reading the flag in between got None. igroupreverse likewise re-read an attribute that
another thread's pack_by_group() resets.
---
 riptable/rt_grouping.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..beb27d4 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1655,9 +1655,12 @@ class Grouping:
         igroup
         """
         # only categoricals do not have an iFirstKey
-        if self.iGroupReverse is None:
-            self.iGroupReverse = rc.ReverseShuffle(self.igroup)
-        return self.iGroupReverse
+        igroupreverse = self.iGroupReverse
+        if igroupreverse is None:
+            # return the local: pack_by_group in another thread resets the cached array
+            igroupreverse = rc.ReverseShuffle(self.igroup)
+            self.iGroupReverse = igroupreverse
+        return igroupreverse
 
     # ---------------------------------------------------------------
     @property
@@ -2384,18 +2387,13 @@ class Grouping:
                 # keep existing filter
                 return
 
-        self._packed = True
-
         iKey = self.ikey
         iNextKey = self.iNextKey
 
         if filter is not None:
             # force rebuild of None
-            self._packedwithfilter = True
             iNextKey = None
             iKey = combine_filter(iKey, filter)
-        else:
-            self._packedwithfilter = False
 
         if Grouping.DebugMode:
             print("repacking", iKey, iNextKey)
@@ -2412,6 +2410,11 @@ class Grouping:
         # reset since we do not know what past filter was
         self.iGroupReverse = None
 
+        # only flag as packed once the packing arrays are in place, so that a failure above (or
+        # another thread reading the flag) never sees a packed grouping without its arrays
+        self._packedwithfilter = filter is not None
+        self._packed = True
+
         if Grouping.DebugMode:
             print(
                 "done repacking -- group",
-- 
2.43.0


From a91eb85bd022c44f93e23a5281733408edb0b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 02/59] fix: do not lose arrays when saving uncompressed with
 nested containers or a zero-length first array

The native uncompressed writer drops trailing arrays of a file whose array list holds a None
placeholder (a Struct with nested containers) and every array when the first has no bytes, so
save(compress=False) silently lost data.
---
 riptable/rt_sds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..4748b6a 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2446,6 +2446,12 @@ def compress_dataset_internal(
 
     # TODO - a gateway check could go here
 
+    # The uncompressed writer loses arrays after a placeholder (None, a nested container saved to its own
+    # file), and all of them when the first one has no bytes. Compress those files so nothing is lost.
+    if sharename is None and comptype == CompressionType.Uncompressed and len(listarrays) > 0:
+        if any(arr is None for arr in listarrays) or listarrays[0].nbytes == 0:
+            comptype = CompressionType.ZStd
+
     if sharename is None:
         if SDSVerbose:
             print(f"calling rc.CompressFile {filename}")
-- 
2.43.0


From db4d50f0417e0e2f85ccf9d0539a1489d6d6836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 03/59] fix: nested container order on load no longer depends
 on directory listing order

---
 riptable/rt_sds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 4748b6a..7275023 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -3446,7 +3446,8 @@ def _build_schema(path: str, dir, share_prefix="", nodirs=False) -> dict:
         # NOTE this runs too slow when there are many files because of all the isdir checks
         files = [f[plen:-4] for f in dir if sds_endswith(f, add=False) and not sds_isdir(os.path.join(path, f))]
 
-    for f in files:
+    # sorted so that the order of nested containers does not depend on the order of the directory listing
+    for f in sorted(files):
         schema_p = schema
 
         while True:
-- 
2.43.0


From ef30c780429ca8698c91d1555af1206f127193f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:58 +0000
Subject: [PATCH 04/59] fix: loading an interrupted save raises instead of
 silently dropping columns

The native writer rewrites the file header before the array table, so a process that dies in
between leaves a file that loads as a Dataset without (some of) its columns.
---
 riptable/rt_sds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 7275023..a912c8e 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -3657,6 +3657,12 @@ def _read_sds(
     else:
         meta, arrs, meta_tups, fileheader_dict = multiload
 
+    if not info and include is None and folders is None and sections is None and filter is None:
+        # every item that was not saved to its own file must have an array, otherwise the save was interrupted
+        for arr, tup in zip(arrs, meta_tups):
+            if arr is None and not tup[1] & SDSFlag.Nested:
+                raise ValueError(f"The file {path} is incomplete, no data was found for item {tup[0]}.")
+
     ftype = fileheader_dict.get("FileType", None)
 
     if ftype == SDSFileType.Array:
-- 
2.43.0


From 174fd52189698b83eff6423794638fe235491915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:54 +0000
Subject: [PATCH 05/59] fix: loading an interrupted save raises also when no
 array table was written

---
 riptable/rt_sds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index a912c8e..78344cb 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -3659,8 +3659,8 @@ def _read_sds(
 
     if not info and include is None and folders is None and sections is None and filter is None:
         # every item that was not saved to its own file must have an array, otherwise the save was interrupted
-        for arr, tup in zip(arrs, meta_tups):
-            if arr is None and not tup[1] & SDSFlag.Nested:
+        for i, tup in enumerate(meta_tups):
+            if not tup[1] & SDSFlag.Nested and (i >= len(arrs) or arrs[i] is None):
                 raise ValueError(f"The file {path} is incomplete, no data was found for item {tup[0]}.")
 
     ftype = fileheader_dict.get("FileType", None)
-- 
2.43.0


From 06f8ac305346f8c23c49dbeddad522b5aef109b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:16 +0000
Subject: [PATCH 06/59] fix: an incomplete root file of a directory save raises
 on load

---
 riptable/rt_sds.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 78344cb..72f7fb4 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2711,11 +2711,24 @@ def skeleton_from_meta_data(container_type, filepath, meta, arrays, meta_tups, f
     return data
 
 
+# ------------------------------------------------------------------------------------
+def _check_all_items_loaded(path, arrs, meta_tups):
+    """
+    Every item that was not saved to its own file must have an array in a full load,
+    otherwise the save was interrupted.
+    """
+    for i, tup in enumerate(meta_tups):
+        if not tup[1] & SDSFlag.Nested and (i >= len(arrs) or arrs[i] is None):
+            raise ValueError(f"The file {path} is incomplete, no data was found for item {tup[0]}.")
+
+
 # ------------------------------------------------------------------------------------
 def _init_root_container(path, name, sharename=None, info=False, include=None, threads=None):
     fullpath = path + os.path.sep + name + SDS_EXTENSION
     firstsds = decompress_dataset_internal(fullpath, sharename=sharename, info=info, include=include, threads=threads)
     meta, arrays, meta_tups, fileheader_dict = firstsds[0]
+    if not info and include is None:
+        _check_all_items_loaded(fullpath, arrays, meta_tups)
     container_type = container_from_filetype(fileheader_dict["FileType"])
 
     # possibly non-json meta data (Matlab, older SDS format)
@@ -3658,10 +3671,7 @@ def _read_sds(
         meta, arrs, meta_tups, fileheader_dict = multiload
 
     if not info and include is None and folders is None and sections is None and filter is None:
-        # every item that was not saved to its own file must have an array, otherwise the save was interrupted
-        for i, tup in enumerate(meta_tups):
-            if not tup[1] & SDSFlag.Nested and (i >= len(arrs) or arrs[i] is None):
-                raise ValueError(f"The file {path} is incomplete, no data was found for item {tup[0]}.")
+        _check_all_items_loaded(path, arrs, meta_tups)
 
     ftype = fileheader_dict.get("FileType", None)
 
-- 
2.43.0


From ddea42828b577ac88fe3c64e27445439a610cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:38 +0000
Subject: [PATCH 07/59] fix: loading a list of directories returns their
 contents instead of None

---
 riptable/rt_sds.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 72f7fb4..babfc34 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1204,18 +1204,20 @@ def _sds_load_from_list(
     list of datasets/structs/arrays.
     """
 
-    # load all loose sds files at the same time
-    multiload = decompress_dataset_internal(
-        single_sds,
-        sharename=share,
-        info=info,
-        include=include,
-        threads=threads,
-        filter=filter,
-        mustexist=mustexist,
-        folders=folders,
-        sections=sections,
-    )
+    # load all loose sds files at the same time (the list might have only directories)
+    multiload = []
+    if single_sds or not files:
+        multiload = decompress_dataset_internal(
+            single_sds,
+            sharename=share,
+            info=info,
+            include=include,
+            threads=threads,
+            filter=filter,
+            mustexist=mustexist,
+            folders=folders,
+            sections=sections,
+        )
 
     # check for autodetect on appended to or concat
     if isinstance(multiload, (tuple, list)):
-- 
2.43.0


From 8456db915e04df7cba968b8640679dbbf1d69fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 08/59] fix: an unreadable directory raises on load instead of
 returning an empty Struct

---
 riptable/rt_sds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index babfc34..292044c 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2984,9 +2984,9 @@ def _load_sds(
                 filter=filter,
             )
         # only directories will hit this
-        # we can speed this up with os.walk
         # remember the file list, because we know all these files exist
-        dir = [f for root, dirs, files in os.walk(path) for f in files]
+        with os.scandir(path) as entries:
+            dir = [entry.name for entry in entries if not entry.is_dir()]
         # old code --> sds_listdir(path)
         schema = _build_schema(path, dir, nodirs=True)
 
-- 
2.43.0


From 60445f2eb98c87b1cf1b62df47e80135aae1a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:47 +0000
Subject: [PATCH 09/59] fix: sds info of a directory with exactly five nested
 containers raised TypeError

---
 riptable/rt_sds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 292044c..f921a63 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -3080,7 +3080,8 @@ def _load_sds(
 
     # possibly load from extra files in directory
     include_extra = False
-    if root_file_found:
+    # info returns a dictionary which also has entries about the container, it is not sorted
+    if root_file_found and not info:
         final_sort = _order_from_meta(root_struct, meta, meta_tups)
         # all items will be included if no root file was found
         if final_sort is not None:
-- 
2.43.0


From 5ae0499e49228841e3a318b83b382d13576544ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:29 +0000
Subject: [PATCH 10/59] fix: stacked load of one-file structs keeps the
 partition boundaries

---
 riptable/rt_sds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index f921a63..7c2f74d 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1496,6 +1496,8 @@ def _stacked(filenames, result, folders):
 
         # fix cutoffs (trim down to just what we have)
         cutoffs = {colname: allcutoffs[colname] for colname in data}
+        # a Dataset would be taken as a single partition, pass its columns
+        data = {colname: data[colname] for colname in data}
         # print("**final cutoffs", cutoffs)
         # ds = TypeRegister.PDataset(data, cutoffs=cutoffs, filenames=loadedpaths)
         # return data, cutoffs
-- 
2.43.0


From aa3fc9b0918d0b7284904dc39e6aa0848e353ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:04 +0000
Subject: [PATCH 11/59] fix: sds_flatten no longer overwrites an existing file
 or strands the root file when interrupted

---
 riptable/rt_sds.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 7c2f74d..7c7273a 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -445,31 +445,28 @@ def sds_flatten(rootpath: AnyPath) -> None:
             flatten_fail.append(dirpath)
             continue
 
+        # strip .sds for renaming
+        prefix = dirpath
+        if sds_endswith(prefix):
+            prefix = dirpath[:-4]
+
         oldroot = None
         # move the _root.sds file to the base directory
         if "_root.sds" in dirlist:
-            # might have same name as directory, so use a temp name
             oldroot = dirpath + os.sep + "_root.sds"
-            newroot = rootpath + os.sep + "_root.sds_temp"
+            finalroot = prefix + SDS_EXTENSION
+            # might have same name as directory, so use a temp name
+            newroot = finalroot if finalroot != dirpath else rootpath + os.sep + "_root.sds_temp"
 
-            # BUG: get the final root path here, or before final save
             if sds_exists(newroot):
-                warnings.warn(
-                    f"temp file {newroot} already in root container, could not flatten {dirpath}.", stacklevel=2
-                )
+                warnings.warn(f"{newroot} already in root container, could not flatten {dirpath}.", stacklevel=2)
                 skip = True
             else:
-                # add to final moving list
-                move_files.append((oldroot, newroot))
                 dirlist.remove("_root.sds")
         if skip:
             flatten_fail.append(dirpath)
             continue
 
-        # strip .sds for renaming
-        prefix = dirpath
-        if sds_endswith(prefix):
-            prefix = dirpath[:-4]
         prefix = prefix + "!"
 
         # move all .sds files to base directory
@@ -487,15 +484,17 @@ def sds_flatten(rootpath: AnyPath) -> None:
             flatten_fail.append(dirpath)
             continue
 
+        # the root file is moved last, so that an interrupted flatten can be repeated
+        if oldroot is not None:
+            move_files.append((oldroot, newroot))
+
         # move all .sds files to base directory
         for old, new in move_files:
             os.rename(old, new)
 
         shutil.rmtree(dirpath)
         # rename temp _root if necessary
-        if oldroot is not None:
-            # strip ! from end of prefix
-            finalroot = prefix[:-1] + SDS_EXTENSION
+        if oldroot is not None and newroot != finalroot:
             os.rename(newroot, finalroot)
 
     if len(flatten_fail) > 0:
-- 
2.43.0


From 275a28f9480301cda61b243803980535ba3a5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:58 +0000
Subject: [PATCH 12/59] fix: a Dataset saved with a sorted view loads with its
 own sort index

---
 riptable/rt_struct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..12ddc79 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1616,7 +1616,8 @@ class Struct:
         # currently getting removed from root struct only
 
         def load_class_meta(data, arrays, meta):
-            arr_idx = 0
+            # the sort index and the footers come after the items that have a tuple
+            arr_idx = len(meta_tups)
             data.label_set_names(meta["labels"])
 
             # send the sort index to the SortCache
-- 
2.43.0


From 06944e8b5c14a469fc71596497009955e2ebb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:16 +0000
Subject: [PATCH 13/59] fix: copying or filtering a Dataset that has a sorted
 view raised AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..40037c3 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,7 +709,7 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
                 new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
                 if len(new_sort) > 0:
-- 
2.43.0


From db2ee125bab01b3b081c6ca7fcbbe9d8539ca045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:16 +0000
Subject: [PATCH 14/59] fix: sort_copy of a Dataset with footers raised
 AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 40037c3..91ec022 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4122,7 +4122,7 @@ class Dataset(Struct):
                 if hasattr(self, "_footers"):
                     footers = {}
                     for f, item in self._footers.items():
-                        footers[f] = item.copy()
+                        footers[f] = item.copy() if item else item
                     newds._footers = footers
 
                 return newds
-- 
2.43.0


From 507e0e73dc0793c92736109845f924da5b3c317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:51 +0000
Subject: [PATCH 15/59] fix: saving a strided DateTimeNano, Categorical or
 other special array with onefile=True raised

---
 riptable/rt_struct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 12ddc79..5d5df7b 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -2127,8 +2127,11 @@ class Struct:
         if isinstance(item, np.ndarray):
             # get arrays, flags, meta from array subclass
             if hasattr(item, "_build_sds_meta_data"):
-                # store the instance array
-                itemdict[itemname] = item._fa
+                # store the instance array, might need to copy strided data
+                instance = item._fa
+                if instance.ndim == 1 and instance.strides[0] != instance.itemsize:
+                    instance = instance.copy()
+                itemdict[itemname] = instance
                 itemflags.append(SDSFlag.OriginalContainer + SDSFlag.Stackable + SDSFlag.Meta)
 
                 imeta, arrlist, nameflagtup = item._build_sds_meta_data(name=itemname)
-- 
2.43.0


From 5f1549fd3bf3705fceaaac55bdb5cbbf237da7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:15 +0000
Subject: [PATCH 16/59] fix: PDataset.set_pnames left the cached partition
 labels with the old names

---
 riptable/rt_pdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_pdataset.py b/riptable/rt_pdataset.py
index 66fbb25..c5c3957 100644
--- a/riptable/rt_pdataset.py
+++ b/riptable/rt_pdataset.py
@@ -437,6 +437,8 @@ class PDataset(Dataset):
 
                 if len(newpnames) == len(self._pnames):
                     self._pnames = newpnames
+                    # row labels hold the old names
+                    self._pcat = None
                 else:
                     raise ValueError(f"The new pnames must be unique names: {pnames}")
 
-- 
2.43.0


From 17a598ba1214157bf86be76c1d9ee4b4d3caafdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 17/59] fix: pickling an array whose storage was recycled and
 lost its name failed

---
 riptable/rt_fastarray.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..5d447ff 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -851,10 +851,8 @@ class FastArray(np.ndarray):
 
         # check if subclassed routine knows how to serialize itself
         if hasattr(self, "_build_sds_meta_data"):
-            try:
-                name = self._name
-            except:
-                name = "unknown"
+            # an array that was never named has no name, or None
+            name = getattr(self, "_name", None) or "unknown"
 
             tups = self._build_sds_meta_data(name)
             return (cls._load_from_sds_meta_data, (name, self.view(FastArray), tups[1], tups[0]))
-- 
2.43.0


From b5e6d8132f65b5142996b02196c9cc5747bc56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 18/59] fix: html display of a table drew its id from, and so
 advanced, numpy's global random state

---
 riptable/rt_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_display.py b/riptable/rt_display.py
index 2616d79..af79889 100644
--- a/riptable/rt_display.py
+++ b/riptable/rt_display.py
@@ -1671,7 +1671,7 @@ class DisplayHtmlTable:
             return joined
 
         html_string_list = []
-        display_id = str(np.random.randint(9999))  # unique id to fix bug in styling (jupyter lab likes to take over)
+        display_id = str(np.random.default_rng().integers(9999))  # unique id to fix bug in styling (jupyter lab likes to take over)
         css_prefix = "table.tbl-" + display_id
 
         # LEAVE THIS HERE
-- 
2.43.0


From dac0a0e5415f24ae82cdae3c2893164f4f064956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 19/59] fix: temporary display options of Struct display leaked
 on an exception or when two threads displayed

---
 riptable/rt_struct.py | 96 +++++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 5d5df7b..88f0668 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -9,8 +9,10 @@ import logging
 import os
 import re
 import sys
+import threading
 import warnings
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from re import IGNORECASE, compile
 from typing import (
     TYPE_CHECKING,
@@ -74,6 +76,28 @@ class _DefaultGetAttrPlaceholder:
 _default_getattr_placeholder = _DefaultGetAttrPlaceholder()
 
 
+# temporary display options are process-wide: one thread at a time, so that none saves another's temporary values
+_display_options_lock = threading.RLock()
+
+
+@contextmanager
+def _temporary_display_options(**options):
+    """Change display options while a display is being built; they are restored even if it fails."""
+    if not options:
+        yield
+        return
+    current = TypeRegister.DisplayOptions
+    with _display_options_lock:
+        saved = {name: getattr(current, name) for name in options}
+        try:
+            for name, value in options.items():
+                setattr(current, name, value)
+            yield
+        finally:
+            for name, value in saved.items():
+                setattr(current, name, value)
+
+
 class Struct:
     """
     The Struct class is at the root of much of the riptable class design; both Dataset and Multiset
@@ -4224,12 +4248,9 @@ class Struct:
               a                                  1      2       3
               b   longstring_longstring_longstring   fish   david
         """
-        oldmaxwidth = TypeRegister.DisplayOptions.MAX_STRING_WIDTH
-        if oldmaxwidth < 32:
-            TypeRegister.DisplayOptions.MAX_STRING_WIDTH = 32
-        result = self.dtranspose()
-        TypeRegister.DisplayOptions.MAX_STRING_WIDTH = oldmaxwidth
-        return result
+        maxwidth = max(TypeRegister.DisplayOptions.MAX_STRING_WIDTH, 32)
+        with _temporary_display_options(MAX_STRING_WIDTH=maxwidth):
+            return self.dtranspose()
 
     # -------------------------------------------------------
     @property
@@ -4512,12 +4533,8 @@ class Struct:
         2    True    True
         3   False   False
         """
-        savemode = (DisplayTable.options.COL_ALL, DisplayTable.options.CONSOLE_X_HTML)
-        DisplayTable.options.COL_ALL = True
-        DisplayTable.options.CONSOLE_X_HTML = 150
-        print(self)
-        DisplayTable.options.COL_ALL = savemode[0]
-        DisplayTable.options.CONSOLE_X_HTML = savemode[1]
+        with _temporary_display_options(COL_ALL=True, CONSOLE_X_HTML=150):
+            print(self)
         return None
 
     # -------------------------------------------------------
@@ -4708,18 +4725,10 @@ class Struct:
         if not isinstance(value, list):
             value = [value]
 
-        # store setting
-        revert = [getattr(TypeRegister.DisplayOptions, opt) for opt in option]
-        for i, v in enumerate(value):
-            setattr(TypeRegister.DisplayOptions, option[i], v)
-
         # build string (repr or html)
-        display_type = self._get_final_display_mode()
-        output = self.make_table(display_type)
-
-        # restore setting
-        for i, rev in enumerate(revert):
-            setattr(TypeRegister.DisplayOptions, option[i], rev)
+        with _temporary_display_options(**dict(zip(option, value))):
+            display_type = self._get_final_display_mode()
+            output = self.make_table(display_type)
         return TypeRegister.DisplayString(output)
 
     # -------------------------------------------------------
@@ -4821,14 +4830,14 @@ class Struct:
         summary_cols = self.summary_as_dict()
         header_tups, main_data, footer_tups = self._prepare_display_data()
 
-        restore_str_width = TypeRegister.DisplayOptions.MAX_STRING_WIDTH
+        options = {}
         if hasattr(self, "_nrows"):
             nrows = self._nrows
         # number of rows is set to number of columns for structs
         else:
             nrows = self._ncols
             # increase max string width for structs
-            TypeRegister.DisplayOptions.MAX_STRING_WIDTH = 32
+            options["MAX_STRING_WIDTH"] = 32
 
         # check if accum2 had any badcols
         badcols = None
@@ -4842,23 +4851,24 @@ class Struct:
             badrows = {k: bad_color for k in self._badrows}
 
         # send to rt_display to build a result string for console or html
-        result = table.build_result_table(
-            header_tups,  # list of lists of ColHeader tuples
-            main_data,  # list of column arrays
-            nrows,  # number of rows ( dataset only )
-            keys=label_keys,  # dictionary of groupby keys taht will appear on the far left
-            row_numbers=self._row_numbers,  # callback function to return custom left-hand table
-            right_cols=summary_cols,  # dictionary of keys->arrays that will appear on the far right
-            footer_tups=footer_tups,  # list of lists of ColHeader tuples
-            sortkeys=self._col_sortlist,  # list of names of columns the table was sorted by
-            sorted_row_idx=sorted_row_idx,  # fancy index for sort when table has a sorted view
-            from_str=from_str,  # display called from str() or plain console
-            transpose_on=self._transpose_on,  # display called from ._T
-            badrows=badrows,
-            badcols=badcols,
-            styles=self._styles,  # dictionary of column name -> ColumnStyle object **not implemented
-            callback=getattr(self, "_display_callback", None),
-        )  # user can specify their own callback
+        with _temporary_display_options(**options):
+            result = table.build_result_table(
+                header_tups,  # list of lists of ColHeader tuples
+                main_data,  # list of column arrays
+                nrows,  # number of rows ( dataset only )
+                keys=label_keys,  # dictionary of groupby keys taht will appear on the far left
+                row_numbers=self._row_numbers,  # callback function to return custom left-hand table
+                right_cols=summary_cols,  # dictionary of keys->arrays that will appear on the far right
+                footer_tups=footer_tups,  # list of lists of ColHeader tuples
+                sortkeys=self._col_sortlist,  # list of names of columns the table was sorted by
+                sorted_row_idx=sorted_row_idx,  # fancy index for sort when table has a sorted view
+                from_str=from_str,  # display called from str() or plain console
+                transpose_on=self._transpose_on,  # display called from ._T
+                badrows=badrows,
+                badcols=badcols,
+                styles=self._styles,  # dictionary of column name -> ColumnStyle object **not implemented
+                callback=getattr(self, "_display_callback", None),
+            )  # user can specify their own callback
         # callback signature must be callback(cols, stylefunc, rows=True)
         # from riptable.rt_display import DisplayColumnColors
         # callback(list of DisplayColumns, stylefunc, rows=True)
@@ -4869,8 +4879,6 @@ class Struct:
         #            if cell.string.startswith('-'): cell.color=DisplayColumnColors.Red
         # ds._display_callback = makered
 
-        TypeRegister.DisplayOptions.MAX_STRING_WIDTH = restore_str_width
-
         return result + row_stats
 
     # -------------------------------------------------------
-- 
2.43.0


From 736ec5b42755e934385e043acd278b440ef8f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 20/59] fix: numpy print options leaked from Categorical repr
 when two threads displayed

---
 riptable/rt_categorical.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..305249e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -13,6 +13,7 @@ __all__ = [
 import logging
 import operator
 import sys
+import threading
 import warnings
 from enum import EnumMeta, IntEnum
 from typing import (
@@ -223,6 +224,10 @@ def make_string_array(categories):
     return string_array
 
 
+# guards numpy's process-wide print options while a Categorical is displayed
+_repr_lock = threading.RLock()
+
+
 class Categories:
     """
     Holds categories for each Categorical instance. This adds a layer of abstraction to Categorical.
@@ -6291,26 +6296,15 @@ class Categorical(GroupByOps, FastArray):
     def __repr__(self, verbose=False):
         repr_strings = []
 
-        printopts = np.get_printoptions()
-        thresh = printopts["threshold"]
-        edge = printopts["edgeitems"]
-        line = printopts["linewidth"]
-
-        np.set_printoptions(threshold=10)
-        np.set_printoptions(edgeitems=5)
-        np.set_printoptions(linewidth=1000)
-        repr_strings.append(f"{self.__class__.__name__}([{self._build_string()}]) Length: {len(self)}")
-        repr_strings.append(f"  {self.view(FastArray).__repr__()} Base Index: {self.base_index}")
-        repr_strings.append(f"  {self.unique_repr} Unique count: {self.unique_count}")
+        # numpy's print options are process-wide: one thread at a time, so that none restores another's temporary values
+        with _repr_lock, np.printoptions(threshold=10, edgeitems=5, linewidth=1000):
+            repr_strings.append(f"{self.__class__.__name__}([{self._build_string()}]) Length: {len(self)}")
+            repr_strings.append(f"  {self.view(FastArray).__repr__()} Base Index: {self.base_index}")
+            repr_strings.append(f"  {self.unique_repr} Unique count: {self.unique_count}")
 
         if verbose:
             repr_strings.append(f"  Mode: {CategoryMode(self.category_mode).name}\tLocked: {self._locked}")
 
-        # restore options after building categorical's array display
-        np.set_printoptions(threshold=thresh)
-        np.set_printoptions(edgeitems=edge)
-        np.set_printoptions(linewidth=line)
-
         return "\n".join(repr_strings)
 
     # ------------------------------------------------------------
-- 
2.43.0


From ddce7eb501fc3d47c8fda355d9b374487bfbae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 21/59] fix: Grouping lazy ikey and ncountgroup published
 before the arrays they depend on

---
 riptable/rt_grouping.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index beb27d4..191d2f8 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -995,14 +995,15 @@ class Grouping:
         will generate ikey, ifirstkey, unique_count also
         """
         hashdict = groupby(list_values, filter=filter)
-        self._iKey, self.iFirstKey, self._unique_count, self.iGroup, self.iFirstGroup, self.nCountGroup = (
-            hashdict["iKey"],
-            hashdict["iFirstKey"],
-            hashdict["unique_count"],
-            hashdict["iGroup"],
-            hashdict["iFirstGroup"],
-            hashdict["nCountGroup"],
-        )
+        self.iFirstKey, self._unique_count = hashdict["iFirstKey"], hashdict["unique_count"]
+        if hashdict["iGroup"] is not None:
+            self.iGroup, self.iFirstGroup, self.nCountGroup = (
+                hashdict["iGroup"],
+                hashdict["iFirstGroup"],
+                hashdict["nCountGroup"],
+            )
+        # last: another thread that sees the ikey relies on the rest, and may have packed the groups by now
+        self._iKey = hashdict["iKey"]
 
     # ------------------------------------------------------------
     @classmethod
@@ -1678,13 +1679,15 @@ class Grouping:
         ifirstgroup
         igroupreverse
         """
-        if self.nCountGroup is None:
+        ncountgroup = self.nCountGroup
+        if ncountgroup is None:
             if len(self.ikey):
-                self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
+                ncountgroup = rc.BinCount(self.ikey, self.unique_count + 1)
             else:
-                self.nCountGroup = zeros((self.unique_count + 1), dtype=np.int32)
+                ncountgroup = zeros((self.unique_count + 1), dtype=np.int32)
+            self.nCountGroup = ncountgroup
 
-        return self.nCountGroup
+        return ncountgroup
 
     # ---------------------------------------------------------------
     @property
-- 
2.43.0


From 01c5134e181b238f43477d41b1048d2d890e2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 22/59] fix: shallow copies shared item attributes (labels,
 summary, footers) with the original

---
 riptable/rt_itemcontainer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..b7060a8 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -194,12 +194,23 @@ class ItemContainer:
         if cols is None:
             newcontainer._items = self._items.copy()
             for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
+                newcontainer._items[k] = self._copy_item(v)
         else:
             for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+                newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
+    # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """
+        Copy of a [value, attribute] pair: the value is shared, its attribute (label, summary, footer) is not.
+        """
+        item = item.copy()
+        if isinstance(item[1], ItemAttribute):
+            item[1] = item[1].copy()
+        return item
+
     # -----------------------------------------
     def copy_apply(self, func, *args, cols=None):
         """
@@ -212,13 +223,13 @@ class ItemContainer:
         if cols is None:
             for k, v in self._items.items():
                 # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
                 # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From a3833e7bd893fb4f5620324eb6ced62c331c248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 23/59] fix: lazily sorted GroupBy keys were sorted twice or
 left unsorted when two threads used one GroupBy

---
 riptable/rt_groupbykeys.py | 55 +++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/riptable/rt_groupbykeys.py b/riptable/rt_groupbykeys.py
index e744fd6..396f606 100644
--- a/riptable/rt_groupbykeys.py
+++ b/riptable/rt_groupbykeys.py
@@ -1,4 +1,5 @@
 import copy
+import threading
 import warnings
 
 import numpy as np
@@ -6,6 +7,9 @@ import numpy as np
 from .rt_enum import FILTERED_LONG_NAME, INVALID_DICT, NumpyCharTypes, TypeRegister
 from .rt_numpy import hstack, lexsort, mask_andi
 
+# the keys are generated, sorted and given a filter bin lazily, in several steps, by whichever caller needs them first
+_keys_lock = threading.RLock()
+
 
 class GroupByKeys:
     """Handles masking, appending invalid, and sorting of key columns for a groupby operation.
@@ -98,9 +102,10 @@ class GroupByKeys:
         """
         Generates isortrows (index to sort groupby keys). Possibly performs a lexsort.
         """
-        if self._isortrows is None:
-            self._isortrows = self._make_isortrows()
-        return self._isortrows
+        with _keys_lock:
+            if self._isortrows is None:
+                self._isortrows = self._make_isortrows()
+            return self._isortrows
 
     # ------------------------------------------------------------
     @property
@@ -116,8 +121,9 @@ class GroupByKeys:
         """
         Adds a filter to the gbkeys, or returns the already filtered gbkeys.
         """
-        self._insert_filter_bin()
-        return self.keys(showfilter=True)
+        with _keys_lock:
+            self._insert_filter_bin()
+            return self.keys(showfilter=True)
 
     # ------------------------------------------------------------
     def _insert_filter_bin(self):
@@ -154,6 +160,10 @@ class GroupByKeys:
     # ------------------------------------------------------------
     def keys(self, sort=None, showfilter=False):
         """Return unique keys, possibly apply a sort and add a filter bin."""
+        with _keys_lock:
+            return self._keys(sort=sort, showfilter=showfilter)
+
+    def _keys(self, sort=None, showfilter=False):
         # groupby keys need to be generated from the non-unique grouping dict
         self._gbkeys = self._pull_from_ifirstkey()
 
@@ -190,28 +200,31 @@ class GroupByKeys:
 
     # ------------------------------------------------------------
     def _insert_filter_label(self):
-        labels = self.multikey_labels
-        if self._filter_applied_labels is False:
-            label = (FILTERED_LONG_NAME,) * len(self.gbkeys)
-            self._multikey_labels.insert(0, label)
-            self._filter_applied_labels = True
+        with _keys_lock:
+            labels = self.multikey_labels
+            if self._filter_applied_labels is False:
+                label = (FILTERED_LONG_NAME,) * len(self.gbkeys)
+                self._multikey_labels.insert(0, label)
+                self._filter_applied_labels = True
 
     # ------------------------------------------------------------
     def labels(self, showfilter=False):
         """
         Generates list of tuples from multikey columns.
         """
-        if self._multikey_labels is None:
-            self._multikey_labels = []
-            for i in range(self.unique_count):
-                key = self.get_bin_from_index(i)
-                key = str(key)
-                key.replace("'", "")
-                self._multikey_labels.append(key)
-
-        if self._filter_applied_labels and showfilter is False:
-            return self._trim_keys(self._multikey_labels)
-        return self._multikey_labels
+        with _keys_lock:
+            if self._multikey_labels is None:
+                multikey_labels = []
+                for i in range(self.unique_count):
+                    key = self.get_bin_from_index(i)
+                    key = str(key)
+                    key.replace("'", "")
+                    multikey_labels.append(key)
+                self._multikey_labels = multikey_labels
+
+            if self._filter_applied_labels and showfilter is False:
+                return self._trim_keys(self._multikey_labels)
+            return self._multikey_labels
 
     # ------------------------------------------------------------
     def _trim_keys(self, keys):
-- 
2.43.0


From 16f02e8b93d6dce1f739687a5528e61e3697811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 24/59] fix: a calculation on filtered rows replaced the packed
 groups other users of the Grouping share

---
 riptable/rt_categorical.py |  2 +-
 riptable/rt_groupbyops.py  |  9 +++++----
 riptable/rt_grouping.py    | 23 ++++++++++++++++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 305249e..f1b687c 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6497,7 +6497,7 @@ class Categorical(GroupByOps, FastArray):
         if len(args) != 1:
             raise NotImplementedError("numba_apply does not accept more than one argument for userfunc")
 
-        grp = self.grouping
+        grp = self.grouping._private_if_filtered(filter)
         grp.pack_by_group(filter=filter, mustrepack=True)
 
         iGroup, iFirstGroup, nCountGroup = (
diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..0bc1413 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -225,11 +225,12 @@ class GroupByOps(ABC):
             iFirstGroup - first index for each group in the igroup array. the first index is invalid
             nCountGroup - count for each unique group. the first count in this array is the invalid count.
         """
-        self.grouping.pack_by_group(filter=filter, mustrepack=True)
+        grouping = self.grouping._private_if_filtered(filter)
+        grouping.pack_by_group(filter=filter, mustrepack=True)
         return_dict = {
-            "iGroup": self.grouping.iGroup,
-            "iFirstGroup": self.grouping.iFirstGroup,
-            "nCountGroup": self.grouping.nCountGroup,
+            "iGroup": grouping.iGroup,
+            "iFirstGroup": grouping.iFirstGroup,
+            "nCountGroup": grouping.nCountGroup,
         }
         return return_dict
 
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 191d2f8..0f40aa3 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2359,6 +2359,20 @@ class Grouping:
 
         return self._return_dataset(origdict, accumdict, funcNum, return_all=return_all, keychain=keychain, **kwargs)
 
+    # ---------------------------------------------------------------
+    def _private_if_filtered(self, filter=None):
+        """
+        Returns self, or if there is a filter a shallow copy to pack with it, so that a calculation on filtered rows
+        does not replace the packing arrays that every other user of this grouping shares.
+        """
+        if filter is None:
+            return self
+        # generate the lazy members once, before they are shared with the copy
+        self.ikey
+        grouping = object.__new__(type(self))
+        grouping.__dict__.update(self.__dict__)
+        return grouping
+
     # ---------------------------------------------------------------
     def pack_by_group(self, filter=None, mustrepack=False):
         """
@@ -2638,8 +2652,8 @@ class Grouping:
             return None
 
         # ALWAYS force this to clear out any previous filter
-        self._packed = False
-        self.pack_by_group(filter)
+        self = self._private_if_filtered(filter)
+        self.pack_by_group(filter, mustrepack=True)
 
         base_bin = 1
         if showfilter:
@@ -3065,6 +3079,7 @@ class Grouping:
         if not callable(userfunc):
             raise TypeError(f"userfunc {userfunc!r} is not callable and cannot be applied to the dataset.")
 
+        self = self._private_if_filtered(filter)
         self.pack_by_group(filter, mustrepack=True)
 
         # pass in all columns including strings, datetime, etc
@@ -3358,6 +3373,7 @@ class Grouping:
 
         # check if we have to pack the data
         if mustpack:
+            self = self._private_if_filtered(filter)
             self.pack_by_group(filter, mustrepack=True)
         else:
             if filter is not None:
@@ -3537,7 +3553,8 @@ class Grouping:
             ikey = where(filter, self.ikey, 0)
             ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         elif self._packedwithfilter:
-            ncountkey = rc.BinCount(self.ikey, self.unique_count + 1)
+            ikey = self.ikey
+            ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
-- 
2.43.0


From d3138adc8fb78579d5671dfea5e388e00cb0a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:04 +0000
Subject: [PATCH 25/59] fix: Categorical.apply and apply_nonreduce named the
 caller's own Categorical after the result column

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index f1b687c..8573d12 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5135,7 +5135,8 @@ class Categorical(GroupByOps, FastArray):
             name = name_pattern + str(i)
             if not name in names:
                 break
-        result[name] = self
+        # a column takes on the name it is given: add a shallow copy, not the caller's own object
+        result[name] = self.copy(deep=False)
         result.label_set_names(name)
 
     # ------------------------------------------------------------
-- 
2.43.0


From f4368100daaeb99c2c8dd64c3388fba389ced5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:06 +0000
Subject: [PATCH 26/59] fix: join result column order depended on the process's
 hash seed

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..ef9ba90 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -385,7 +385,7 @@ def _construct_colname_mapping(
     suffixes: Optional[Tuple[str, str]],
     columns_left: Collection[str],
     columns_right: Collection[str],
-) -> Tuple[Tuple[Collection[str], Collection[str]], Tuple[Collection[str], Collection[str]], Set[str]]:
+) -> Tuple[Tuple[Collection[str], Collection[str]], Tuple[Collection[str], Collection[str]], List[str]]:
     """
     Resolve column name collisions in the set of columns being merged from the left and right Datasets.
 
@@ -408,7 +408,8 @@ def _construct_colname_mapping(
 
     # Names from the 'on' clause that are the same in both Datasets are not considered to conflict;
     # so filter those out of the list of other columns we want to be included in the merged Dataset.
-    intersection_cols = left_on_set & right_on_set
+    # Kept in the order given by the caller, so that the column order of the result is the same in every process.
+    intersection_cols = [c for c in dict.fromkeys(left_on) if c in right_on_set]
     if intersection_cols:
         col_left_only = [c for c in col_left if c not in intersection_cols]
         col_right_only = [c for c in col_right if c not in intersection_cols]
-- 
2.43.0


From 21f3e4fac7f8e21f9e6fab195eebf93ae84f04ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 27/59] fix: renaming two columns to the same name by string
 replacement lost a column

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index b7060a8..c4f2f13 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -572,7 +572,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From a5c9e082390f0ece6d8256321e60ecd31e573d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 28/59] fix: assigning too few columns of a Dataset to several
 columns changed some of them before failing

---
 riptable/rt_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 91ec022..1705636 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -1346,6 +1346,10 @@ class Dataset(Struct):
                 # TJD 10.2018 - the row mask appears to have already been applied to value
                 # NOTE: if the row mask is a boolean, we could sum it to get the count
                 # NOTE: if the row mask is fancy indexing, we could get length
+                if value.get_ncols() < ncols:
+                    raise IndexError(
+                        f"Cannot set {ncols} columns from a Dataset with {value.get_ncols()} columns."
+                    )
                 if row_idx is not None and col_idx is not None:
                     # both row and col mask
                     for i, c in enumerate(col_idx):
-- 
2.43.0


From a32258c922fcbbc7516fcc7ef1dfd8ddb8a8ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 29/59] fix: a rejected sort_inplace on a locked Dataset
 dropped its sorted view

---
 riptable/rt_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 1705636..8e877d4 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4086,6 +4086,9 @@ class Dataset(Struct):
                 raise ValueError("_sort_values: Length of the ascending array must match columns.")
             ascending = ascending[::-1].copy()
 
+        if inplace and self.is_locked():
+            raise AttributeError("Not allowed to call sort_inplace() on locked object.")
+
         if inplace or copy:
             if self._sort_display is True and copy is False:
                 # turn it off because user just specified a new sort
-- 
2.43.0


From bd9e80aa717831d113d7f146a474c89a50da4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 30/59] fix: a rejected col_map renamed some of the columns

---
 riptable/rt_struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 88f0668..d70a0a5 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3313,6 +3313,12 @@ class Struct:
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
                 swaps = []
+            # reject the whole map before the first column is renamed
+            for old, new in rename_dict.items():
+                if not self.col_exists(old):
+                    raise ValueError(f"Invalid column to rename: {old!r} does not exist.")
+                if not self.is_valid_colname(new):
+                    raise ValueError(f"Invalid column name: {new}")
             for old, new in rename_dict.items():
                 self.col_rename(old, new)
             for old, new in swaps:
-- 
2.43.0


From 2bcfe0e24af223101e050fac3e74dac7997dd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:37 +0000
Subject: [PATCH 31/59] fix: bulk renames ignored the lock, and col_str_replace
 failed on a sorted Dataset after renaming

---
 riptable/rt_struct.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index d70a0a5..295a2ba 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3402,6 +3402,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_prefix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if prefix + oldname exists, data won't be overwritten
@@ -3442,6 +3444,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_suffix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if oldname + suffix exists, data won't be overwritten
@@ -3527,9 +3531,7 @@ class Struct:
         # going to go away when we do attributes
         # update column sort list if nec.
         if self._col_sortlist is not None:
-            for i, col in enumerate(self._col_sortlist):
-                if col == old:
-                    self._col_sortlist[i] = new
+            self._col_sortlist = [new if col == old else col for col in self._col_sortlist]
 
     # --------------------------------------------------------
     def _ensure_atomic(self, colnames, func):
@@ -3819,14 +3821,13 @@ class Struct:
         >>> ds = rt.Dataset({'a': rt.arange(5), 'A': rt.arange(5)})
         ValueError: Item A already existed, cannot make replacement in item.
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_str_replace() on locked object.")
         # will return true if any column names changed
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
-                r = name.replace(old, new, max)
-                if r != name:
-                    self._col_sortlist[i] = r
+            self._col_sortlist = [name.replace(old, new, max) for name in self._col_sortlist]
 
     # ------------------------------------------------------------
     def _as_dictionary(self, copy=False, rows=None, cols=None):
-- 
2.43.0


From 54149c3b7230e07bce8093266f04259883dbdd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:17 +0000
Subject: [PATCH 32/59] fix: a failing flatten_undo no longer loses the
 metastring and arrayflags columns

---
 riptable/rt_struct.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 295a2ba..ac70ea3 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -2299,14 +2299,11 @@ class Struct:
         else:
             raise TypeError("This structure has not been flattened, no arrayflags")
 
-        # put back later
-        del self.metastring
-        del self.arrayflags
-
         if obj_array is None:
             # first pass, build an array of (colname, value, arrayflag)
-            obj_array = np.empty(self._ncols, dtype="O")
-            for i, ((colname, arr), af) in enumerate(zip(self.items(), arrayflags)):
+            flattened = [item for item in self.items() if item[0] not in ("metastring", "arrayflags")]
+            obj_array = np.empty(len(flattened), dtype="O")
+            for i, ((colname, arr), af) in enumerate(zip(flattened, arrayflags)):
                 obj_array[i] = (colname, arr, af)
 
         if sep is None:
@@ -2315,13 +2312,7 @@ class Struct:
             else:
                 sep = "/"
 
-        result = Struct._flatten_undo(sep, 0, startname, obj_array, meta=metastring)
-
-        # put it back
-        self.arrayflags = arrayflags
-        self.metastring = metastring
-
-        return result
+        return Struct._flatten_undo(sep, 0, startname, obj_array, meta=metastring)
 
     # -------------------------------------------------------
     @classmethod
-- 
2.43.0


From 2b07851327420a59400fd2dc00f40180eed0a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:54 +0000
Subject: [PATCH 33/59] fix: the grouping of a Categorical follows edits of its
 categories

---
 riptable/rt_categorical.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 8573d12..3965864 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -628,6 +628,7 @@ class Categories:
                         self._list = self._list.astype("U", copy=False)
                     self._ordered = True
                     self._sorted = True
+                    self._update_grouping()
                 else:
                     raise ValueError(
                         f"Cannot automatically add categories {cats_to_add} while auto_add_categories is set to False. Set flag to True in Categorical init."
@@ -641,6 +642,16 @@ class Categories:
         else:
             raise NotImplementedError(f"Add categories not supported for {self._mode}.")
 
+    # -----------------------------------------------------------
+    def _update_grouping(self):
+        """
+        Make the unique keys and count of the grouping follow a change of the category array.
+        """
+        grouping = self.grouping
+        (name,) = grouping.uniquedict
+        grouping._grouping_unique_dict = {name: self._list}
+        grouping._unique_count = len(self._list)
+
     # -----------------------------------------------------------
     def match_str_to_category(self, fld):
         """
@@ -1139,6 +1150,7 @@ class Categories:
                     self._list = hstack([self._list, value])
                     self._ordered = False
                     self._sorted = False
+                    self._update_grouping()
                 else:
                     raise ValueError(f"Category {value} already found in categories array.")
 
@@ -1168,9 +1180,11 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # other objects may share the old array
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
+                        self._update_grouping()
                 else:
                     raise ValueError(f"New value must be provided for category replacement.")
             else:
@@ -4346,7 +4360,9 @@ class Categorical(GroupByOps, FastArray):
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
                     # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    # (filtered items stay filtered)
+                    isvalid = self._fa >= self.base_index
+                    self._fa[isvalid] = fix_index[self._fa[isvalid] - self.base_index] + self.base_index
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
@@ -4854,6 +4870,11 @@ class Categorical(GroupByOps, FastArray):
         """
         # gb_keychain to be replaced by label generating methods
         self._gb_keychain = None
+        # the grouping attached to the categories may be a copy of this one
+        edited = self._categories_wrap.grouping
+        if edited is not self.grouping and not self.isenum:
+            self.grouping._grouping_unique_dict = edited._grouping_unique_dict
+            self.grouping._unique_count = edited._unique_count
         # will be marked dirty / repaired by
         # internal set / modify methods in Grouping
         self.grouping.set_dirty()
-- 
2.43.0


From 66c4a38b89048625d95b5216fc629639873ac9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:54 +0000
Subject: [PATCH 34/59] fix: where() takes only a TypeError for "has no length"

---
 riptable/rt_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..da8a4c8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3108,7 +3108,7 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
                         arr = int(arr[0])
                     else:
                         arr = arr[0]
-            except:
+            except TypeError:
                 # probably cannot take len, might be numpy scalar
                 num = arr.dtype.num
                 if num == 0:
-- 
2.43.0


From 142a5f3091be030f7a0bdb1f3a79c0b4b75bcb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:54 +0000
Subject: [PATCH 35/59] fix: vstack does not answer a failed allocation with a
 transposed array

---
 riptable/rt_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index da8a4c8..65bcde7 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4782,6 +4782,8 @@ def vstack(arrlist, dtype=None, order="C"):
                 return h.reshape((numrows, numcols), order="F")
             else:
                 return h.reshape((numcols, numrows), order="C")
+    except MemoryError:
+        raise
     except Exception:
         warnings.warn(f"vstack with order={order!r} failed, calling np.vstack", stacklevel=2)
 
-- 
2.43.0


From 9ba90214cde1a71b7bd560a2d3c03aad2fe445dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:54 +0000
Subject: [PATCH 36/59] fix: hstack does not answer a failed allocation with an
 array that lost its invalid values

---
 riptable/rt_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 65bcde7..1debd0b 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5652,7 +5652,10 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
 
     try:
         hstack_result = rc.HStack(tup, dtypenum)
-    except:
+    except MemoryError:
+        # numpy does not know about invalid values: only use it for what HStack does not support
+        raise
+    except Exception:
         hstack_result = np.hstack(tup)
 
     return hstack_result.view(single_arr_type)
-- 
2.43.0


From 1deeb3f32d297768d5ca17fb2d89047702e8246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:58 +0000
Subject: [PATCH 37/59] fix: the string accessor of an array or Categorical
 answers from the current data

---
 riptable/rt_str.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..788d261 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -605,7 +605,7 @@ class FAString(FastArray):
         return self._apply_func(self.nb_removetrailing, self.nb_removetrailing_par, remove)
 
     # -----------------------------------------------------
-    @cached_property  # only cached for Python 3.7 or higher
+    @property
     def strlen(self):
         """
         return the string length of every string (bytes or unicode)
@@ -1455,13 +1455,15 @@ class CatString:
         from .rt_categorical import CategoryMode
 
         self.cat = cat
-        if cat.category_mode == CategoryMode.StringArray:
-            string_list = cat.category_array
-            self.fastring = FAString(string_list)
-        else:
+        if cat.category_mode != CategoryMode.StringArray:
             raise ValueError(f"Could not use .str in {CategoryMode(cat.category_mode).name}.")
 
-    @cached_property
+    # the categories and codes may change while this object is in use
+    @property
+    def fastring(self):
+        return FAString(self.cat.category_array)
+
+    @property
     def _isfiltered(self):
         return self.cat.isfiltered()
 
-- 
2.43.0


From 2f4dadd8b2a6b75546fecded0774db1c0dd6c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:08 +0000
Subject: [PATCH 38/59] fix: copying a Categorical with base index 0 shifted
 its values

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 3965864..2486343 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1779,6 +1779,7 @@ class Categorical(GroupByOps, FastArray):
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
                                 categorical=True,
+                                base_index=base_index,
                                 dtype=dtype,
                                 _trusted=True,
                             )
-- 
2.43.0


From 52551f5a9c8fb060873d48c87457b0901d1af815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:08 +0000
Subject: [PATCH 39/59] fix: set_valid of an enum Categorical filtered the
 original

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 2486343..9c38b72 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3290,7 +3290,7 @@ class Categorical(GroupByOps, FastArray):
         """
         # mapped categoricals will be flipped to array
         if self.isenum:
-            ikey = self._fa
+            ikey = self._fa.copy()
             if filter is not None:
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
-- 
2.43.0


From e73735635489e0f43cae016f69b97d17cb775f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:14 +0000
Subject: [PATCH 40/59] fix: a filtered or copied Dataset with a multi-key
 sorted view kept the wrong sort directions

---
 riptable/rt_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 8e877d4..8343723 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -711,10 +711,14 @@ class Dataset(Struct):
                     ds._col_sortlist = new_sortlist
                     ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the flags are in lexsort order (last key first)
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ascending = [bool(x[1]) for x in new_sort]
+                    ds._sort_ascending = (
+                        ascending[0] if len(ascending) == 1 else TypeRegister.FastArray(ascending[::-1])
+                    )
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From 429fb0cab20bc106e940e65820e7daa864a74341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:14 +0000
Subject: [PATCH 41/59] fix: category_make_unique shared its codes with the
 original Categorical

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9c38b72..eade616 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3944,7 +3944,7 @@ class Categorical(GroupByOps, FastArray):
             raise NotImplementedError(f"category_make_unique only implemented for category modes: {allowed_modes}")
 
         if len(categories) == len(unique_cat._categories):
-            return Categorical(values, categories, base_index=base_index)
+            return Categorical(values.copy(), categories, base_index=base_index)
 
         pointer, categories = unique_cat._fa, unique_cat._categories
 
-- 
2.43.0


From 12adea714c25089f2ff44cd10aed5891d2838ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:03 +0000
Subject: [PATCH 42/59] fix: a Categorical kept the ordered flag of its old
 categories after category_replace or category_add

---
 riptable/rt_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index eade616..9b302a8 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -651,6 +651,7 @@ class Categories:
         (name,) = grouping.uniquedict
         grouping._grouping_unique_dict = {name: self._list}
         grouping._unique_count = len(self._list)
+        grouping.Ordered = self._ordered
 
     # -----------------------------------------------------------
     def match_str_to_category(self, fld):
@@ -4876,6 +4877,7 @@ class Categorical(GroupByOps, FastArray):
         if edited is not self.grouping and not self.isenum:
             self.grouping._grouping_unique_dict = edited._grouping_unique_dict
             self.grouping._unique_count = edited._unique_count
+            self.grouping.Ordered = edited.Ordered
         # will be marked dirty / repaired by
         # internal set / modify methods in Grouping
         self.grouping.set_dirty()
-- 
2.43.0


From 384559b20c2f288dd3bb620cfd98f413318998f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:30 +0000
Subject: [PATCH 43/59] fix: an enum Categorical kept its old unique count
 after an edit

---
 riptable/rt_grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 0f40aa3..fa92d6b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1513,6 +1513,8 @@ class Grouping:
         # force enum to regen also
         if self.isenum or self._base_index == 0:
             self._iKey = None
+        if self.isenum:
+            self._unique_count = None
 
     # ---------------------------------------------------------------
     @property
-- 
2.43.0


From 5e968579d2290395167e5c63c5d0a1c52e240376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 44/59] fix: load_sds(verbose=) applies to that call only

Every load_sds call switched the global SDSVerbose setting to its verbose argument.
---
 riptable/rt_sds.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 7c7273a..366cfd8 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2001,11 +2001,6 @@ def load_sds(
     <BLANKLINE>
     [2 columns]
     """
-    if verbose:
-        SDSVerboseOn()
-    else:
-        SDSVerboseOff()
-
     if stack is True:
         if info:
             raise ValueError("sds: info cannot be set when stack=True")
@@ -2017,21 +2012,31 @@ def load_sds(
         if reserve != 0.0:
             raise ValueError("sds: reserve cannot be set when stack=False")
 
-    return _load_sds_internal(
-        filepath,
-        share=share,
-        info=info,
-        include_all_sds=include_all_sds,
-        include=include,
-        folders=folders,
-        sections=sections,
-        stack=stack,
-        name=name,
-        threads=threads,
-        filter=filter,
-        mustexist=mustexist,
-        reserve=reserve,
-    )
+    # verbose is for this call only
+    global SDSVerbose
+    saveverbose = SDSVerbose
+    if verbose:
+        SDSVerbose = True
+
+    try:
+        return _load_sds_internal(
+            filepath,
+            share=share,
+            info=info,
+            include_all_sds=include_all_sds,
+            include=include,
+            folders=folders,
+            sections=sections,
+            stack=stack,
+            name=name,
+            threads=threads,
+            filter=filter,
+            mustexist=mustexist,
+            reserve=reserve,
+        )
+    finally:
+        if verbose:
+            SDSVerbose = saveverbose
 
 
 # -----------------------------------------------------------------------------------------
-- 
2.43.0


From cf55a8a5262505862a02c5c85abe12e1d4fdb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 45/59] fix: display thresholds follow PRECISION and
 E_THRESHOLD

e_min, e_max and p_threshold cached the value derived from the options of the first display.
---
 riptable/Utils/display_options.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/Utils/display_options.py b/riptable/Utils/display_options.py
index f9fd850..8ce744a 100644
--- a/riptable/Utils/display_options.py
+++ b/riptable/Utils/display_options.py
@@ -526,7 +526,7 @@ class DisplayOptions(object):
             lower limit before going to scientific notation.
         """
         if cls.E_MIN is None:
-            cls.E_MIN = 10 ** (-1 * TypeRegister.DisplayOptions.E_THRESHOLD)
+            return 10 ** (-1 * TypeRegister.DisplayOptions.E_THRESHOLD)
         return cls.E_MIN
 
     @classmethod
@@ -540,7 +540,7 @@ class DisplayOptions(object):
             Upper limit before going to scientific notation
         """
         if cls.E_MAX is None:
-            cls.E_MAX = 10**TypeRegister.DisplayOptions.E_THRESHOLD
+            return 10**TypeRegister.DisplayOptions.E_THRESHOLD
         return cls.E_MAX
 
     @classmethod
@@ -555,7 +555,7 @@ class DisplayOptions(object):
              The precision threshold for area in between - so small values don't display as zero
         """
         if cls.P_THRESHOLD is None:
-            cls.P_THRESHOLD = 10 ** (-1 * TypeRegister.DisplayOptions.PRECISION) - 1e-5
+            return 10 ** (-1 * TypeRegister.DisplayOptions.PRECISION) - 1e-5
         return cls.P_THRESHOLD
 
     @staticmethod
-- 
2.43.0


From 789068345a1b56ededeadbe7521aa2c2b08113d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 46/59] fix: FastArray._RON and _ROFF return the previous
 recycling mode

The native call they returned always gives True, so a caller could not restore the mode.
---
 riptable/rt_fastarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 5d447ff..e300a0d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1146,7 +1146,8 @@ class FastArray(np.ndarray):
         """
         if not quiet:
             print("Recycling numpy arrays on")
-        result = rc.SetRecycleMode(0)
+        result = FastArray.Recycle
+        rc.SetRecycleMode(0)
         FastArray.Recycle = True
         return result
 
@@ -1165,7 +1166,8 @@ class FastArray(np.ndarray):
         """
         if not quiet:
             print("Recycling numpy arrays off")
-        result = rc.SetRecycleMode(1)
+        result = FastArray.Recycle
+        rc.SetRecycleMode(1)
         FastArray.Recycle = False
         return result
 
-- 
2.43.0


From e470589c052ed7af8276932f3b050da14f931e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 47/59] fix: restore the recycling mode when
 hstack(destroy=True) fails

---
 riptable/rt_hstack.py | 106 +++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 52 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..afc25cf 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -491,69 +491,71 @@ def _hstack_dataset(ds_list: Union[list, tuple], destroy: bool = False):
         # force memory cleanup now
         rc.RecycleGarbageCollectNow(0)
 
-    for name, t in types.items():
-        # for each column, attempt to get it from each dataset, or create an invalid one
-        column_list = []
-        coldim = ndims[name]
-        if coldim == 1:
-            inv_count = 0
-        else:
-            inv_count = (0, shapes[name])
-        # is_binned = t[0] in binned_types
-        for i, ds in enumerate(ds_list):
-            nrows = ds_nrows[i]
+    try:
+        for name, t in types.items():
+            # for each column, attempt to get it from each dataset, or create an invalid one
+            column_list = []
+            coldim = ndims[name]
+            if coldim == 1:
+                inv_count = 0
+            else:
+                inv_count = (0, shapes[name])
+            # is_binned = t[0] in binned_types
+            for i, ds in enumerate(ds_list):
+                nrows = ds_nrows[i]
 
-            # skip if empty dataset
-            if nrows is None:
-                continue
+                # skip if empty dataset
+                if nrows is None:
+                    continue
 
-            # column was found in current dataset
-            if name in ds:
-                col = ds[name]
+                # column was found in current dataset
+                if name in ds:
+                    col = ds[name]
 
-                # might add gap column, reset the running invalid column
-                inv_count, column_list = _possibly_add_concat_gap(coldim, inv_count, col, column_list, t)
+                    # might add gap column, reset the running invalid column
+                    inv_count, column_list = _possibly_add_concat_gap(coldim, inv_count, col, column_list, t)
 
-                # add the existing column
-                column_list.append(col)
+                    # add the existing column
+                    column_list.append(col)
 
-            # reserve room for the gap column, just add to gap length to minimize invalid array generation
-            else:
-                if coldim == 1:
-                    inv_count += nrows
+                # reserve room for the gap column, just add to gap length to minimize invalid array generation
                 else:
-                    inv_count = (inv_count[0] + nrows, inv_count[1])
+                    if coldim == 1:
+                        inv_count += nrows
+                    else:
+                        inv_count = (inv_count[0] + nrows, inv_count[1])
+
+            # check to make sure there's not a leftover invalid column to be added
+            # note: col is the last col value from the loop above
+            inv_count, column_list = _possibly_add_concat_gap(coldim, inv_count, col, column_list, t)
+            del col
+
+            # 2-dimensions need to be handled differently
+            if coldim == 1:
+                stackfunc = hstack
+            else:
+                # NOTE: if riptable takes over vstack, remove the dtype fixup that happens in _possibly_add_concat_gap
+                stackfunc = np.vstack
 
-        # check to make sure there's not a leftover invalid column to be added
-        # note: col is the last col value from the loop above
-        inv_count, column_list = _possibly_add_concat_gap(coldim, inv_count, col, column_list, t)
-        del col
+            # add to final dataset dict
+            newcols[name] = stackfunc(column_list)
+            del column_list
 
-        # 2-dimensions need to be handled differently
-        if coldim == 1:
-            stackfunc = hstack
-        else:
-            # NOTE: if riptable takes over vstack, remove the dtype fixup that happens in _possibly_add_concat_gap
-            stackfunc = np.vstack
+            # check if destroy the data inside the datasets
+            if destroy:
+                for ds in ds_list:
+                    # column was found in current dataset
+                    if name in ds:
+                        del ds[name]
 
-        # add to final dataset dict
-        newcols[name] = stackfunc(column_list)
-        del column_list
+        returnds = TypeRegister.Dataset(newcols)
+        del newcols
 
-        # check if destroy the data inside the datasets
+    finally:
         if destroy:
-            for ds in ds_list:
-                # column was found in current dataset
-                if name in ds:
-                    del ds[name]
-
-    returnds = TypeRegister.Dataset(newcols)
-    del newcols
-
-    if destroy:
-        # turn recycling mode back to what it was
-        if recycle_mode:
-            TypeRegister.FastArray._RON(quiet=True)
+            # turn recycling mode back to what it was
+            if recycle_mode:
+                TypeRegister.FastArray._RON(quiet=True)
 
     return returnds
 
-- 
2.43.0


From 35bae3a69dec6f90c6aa6f045de87450219913da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 48/59] fix: restore WarnOnInvalidNames when building Struct
 metadata fails

Also name the item, not an undefined variable, in the strides warning.
---
 riptable/rt_struct.py | 114 +++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 56 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ac70ea3..3d72f8e 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1093,65 +1093,70 @@ class Struct:
         warnstate = Struct.WarnOnInvalidNames
         Struct.WarnOnInvalidNames = True
 
-        for itemname, item in self.items():
-            try:
-                if item.__module__ == "hdf5.io":
-                    item = h5io_to_struct(item)
-            except:
-                pass
+        try:
+            for itemname, item in self.items():
+                try:
+                    if item.__module__ == "hdf5.io":
+                        item = h5io_to_struct(item)
+                except:
+                    pass
 
-            # arrays / array sublclasses
-            if isinstance(item, np.ndarray):
-                itemflag = SDSFlag.OriginalContainer
+                # arrays / array sublclasses
+                if isinstance(item, np.ndarray):
+                    itemflag = SDSFlag.OriginalContainer
+
+                    # get arrays, flags, meta from array subclass
+                    if hasattr(item, "_as_meta_data"):
+                        idict, iflags, imeta = item._as_meta_data(name=itemname)
+                        for k, v in idict.items():
+                            itemdict[k] = v
+                        itemflags = itemflags + iflags
+                        # like this or store as separate item?
+                        meta["item_meta"].append(imeta)
+
+                    # regular array
+                    else:
+                        # might need to copy strided data
+                        if item.ndim == 1:
+                            if item.strides[0] != item.itemsize:
+                                warnings.warn(
+                                    f"PerfWarning: array named {itemname} had bad 1d strides; copying to contiguous storage"
+                                )
+                                item = item.copy()
 
-                # get arrays, flags, meta from array subclass
-                if hasattr(item, "_as_meta_data"):
-                    idict, iflags, imeta = item._as_meta_data(name=itemname)
-                    for k, v in idict.items():
-                        itemdict[k] = v
-                    itemflags = itemflags + iflags
-                    # like this or store as separate item?
-                    meta["item_meta"].append(imeta)
+                        itemflag += SDSFlag.Stackable
+                        itemflags.append(itemflag)
+                        itemdict[itemname] = item
 
-                # regular array
-                else:
-                    # might need to copy strided data
-                    if item.ndim == 1:
-                        if item.strides[0] != item.itemsize:
-                            warnings.warn(
-                                f"PerfWarning: array named {k} had bad 1d strides; copying to contiguous storage"
-                            )
-                            item = item.copy()
-
-                    itemflag += SDSFlag.Stackable
+                # nested containers
+                elif isinstance(item, Struct):
+                    # add nested struct to itemdict?
+                    # how does its metadata get added?
+                    # how do flags get added?
+                    idict, iflags, imeta = item._as_meta_data(name=itemname, nested=nested)
+                    idict["_meta"] = imeta
+                    idict["_flags"] = iflags
+                    itemdict[itemname] = idict
+
+                    itemflag = SDSFlag.OriginalContainer + SDSFlag.Nested
                     itemflags.append(itemflag)
-                    itemdict[itemname] = item
 
-            # nested containers
-            elif isinstance(item, Struct):
-                # add nested struct to itemdict?
-                # how does its metadata get added?
-                # how do flags get added?
-                idict, iflags, imeta = item._as_meta_data(name=itemname, nested=nested)
-                idict["_meta"] = imeta
-                idict["_flags"] = iflags
-                itemdict[itemname] = idict
-
-                itemflag = SDSFlag.OriginalContainer + SDSFlag.Nested
-                itemflags.append(itemflag)
+                # scalars
+                else:
+                    item = np.asarray([item])
+                    # if scalar created an object array, flip to string and warn
+                    if item.dtype.char == "O":
+                        warnings.warn(
+                            f"Item {item[0]} was not a supported scalar type. Saving as bytestring.", stacklevel=2
+                        )
+                        item = item.astype("S")
+                    itemdict[itemname] = item
+                    itemflag = SDSFlag.Scalar + SDSFlag.OriginalContainer
+                    itemflags.append(itemflag)
 
-            # scalars
-            else:
-                item = np.asarray([item])
-                # if scalar created an object array, flip to string and warn
-                if item.dtype.char == "O":
-                    warnings.warn(
-                        f"Item {item[0]} was not a supported scalar type. Saving as bytestring.", stacklevel=2
-                    )
-                    item = item.astype("S")
-                itemdict[itemname] = item
-                itemflag = SDSFlag.Scalar + SDSFlag.OriginalContainer
-                itemflags.append(itemflag)
+        finally:
+            # flip warning mode back for column names
+            Struct.WarnOnInvalidNames = warnstate
 
         # FOOTERS
         # just re-sort using the column sort list from other meta data
@@ -1170,9 +1175,6 @@ class Struct:
         #        meta['footers'].append(k)
         #        items.append(v)
 
-        # flip warning mode back for column names
-        Struct.WarnOnInvalidNames = warnstate
-
         return itemdict, itemflags, meta.string
 
     # --------------------------------------------------------------------------------------------------
-- 
2.43.0


From f16aa257cc3da7ae4f0c26529d470e406491ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 49/59] fix: close the csv file when loading it fails

---
 riptable/rt_csv.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/riptable/rt_csv.py b/riptable/rt_csv.py
index 12192eb..82ef10c 100644
--- a/riptable/rt_csv.py
+++ b/riptable/rt_csv.py
@@ -76,25 +76,27 @@ def load_csv_as_dataset(
         infile = path_or_file
     else:
         infile = open(path_or_file, "r", encoding=encoding)
-    for _ in range(skip_rows):
-        _ = infile.readline()
-    reader = csv.reader(infile, **kwargs)
-    if column_names is None or len(column_names) == 0:
-        column_names = list(next(reader))
-    if not all(_k.isidentifier() for _k in column_names):
-        raise ValueError("load_csv_as_dataset: column names must be legal python identifiers")
-    if version == 0:
-        data = _load_rows_to_dict_conv_by_col(reader, column_names, converters)
-    elif version == 1:
-        data = _load_rows_to_dict_conv_by_row(reader, column_names, converters)
-    elif version == 2:
-        data = _load_rows_to_tagged_rows(reader, column_names, converters)
-    elif version == 3:
-        data = _load_rows_to_rows_and_cols(reader, column_names, converters)
-    else:
-        raise NotImplementedError("load_csv_as_dataset(version=[0|1|2|3|4]) only.")
-    if infile != path_or_file:
-        infile.close()
+    try:
+        for _ in range(skip_rows):
+            _ = infile.readline()
+        reader = csv.reader(infile, **kwargs)
+        if column_names is None or len(column_names) == 0:
+            column_names = list(next(reader))
+        if not all(_k.isidentifier() for _k in column_names):
+            raise ValueError("load_csv_as_dataset: column names must be legal python identifiers")
+        if version == 0:
+            data = _load_rows_to_dict_conv_by_col(reader, column_names, converters)
+        elif version == 1:
+            data = _load_rows_to_dict_conv_by_row(reader, column_names, converters)
+        elif version == 2:
+            data = _load_rows_to_tagged_rows(reader, column_names, converters)
+        elif version == 3:
+            data = _load_rows_to_rows_and_cols(reader, column_names, converters)
+        else:
+            raise NotImplementedError("load_csv_as_dataset(version=[0|1|2|3|4]) only.")
+    finally:
+        if infile is not path_or_file:
+            infile.close()
     return data
 
 
-- 
2.43.0


From a8a60a91eeac4f6bcadc0eefa82fac308401ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 50/59] fix: pass the dialect arguments of load_csv_as_dataset
 on to pandas

version=4 ignored delimiter, quotechar and the others.
---
 riptable/rt_csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_csv.py b/riptable/rt_csv.py
index 82ef10c..4d150dc 100644
--- a/riptable/rt_csv.py
+++ b/riptable/rt_csv.py
@@ -71,7 +71,7 @@ def load_csv_as_dataset(
         raise RuntimeError("load_csv_as_dataset(version=4) is not allowed if pandas is not available.")
     if version == 4:
         # BUG: pd.read_csv does some sort of import that breaks the unit tester. the csv test succeeds but the next test that runs will raise an error.
-        return _load_rows_via_pandas(pd, path_or_file, column_names, converters, skip_rows, encoding=encoding)
+        return _load_rows_via_pandas(pd, path_or_file, column_names, converters, skip_rows, encoding=encoding, **kwargs)
     if hasattr(path_or_file, "read"):
         infile = path_or_file
     else:
@@ -147,12 +147,12 @@ def _load_rows_to_rows_and_cols(reader, column_names, converters):
     return Dataset.from_rows(rawd, column_names)
 
 
-def _load_rows_via_pandas(pd, fname, column_names, converters, skip_rows, encoding="utf-8"):
+def _load_rows_via_pandas(pd, fname, column_names, converters, skip_rows, encoding="utf-8", **kwargs):
     if column_names is None or len(column_names) == 0:
         column_names = None
         convs = converters
     else:
         _ident = lambda _x: _x
         convs = {_cname: converters.get(_cname, _ident) for _cname in column_names}
-    df = pd.read_csv(fname, converters=convs, names=column_names, skiprows=skip_rows, encoding=encoding)
+    df = pd.read_csv(fname, converters=convs, names=column_names, skiprows=skip_rows, encoding=encoding, **kwargs)
     return Dataset(df)
-- 
2.43.0


From 504ec6cf5ec1e7f5dfc47f63f42de09b16df660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 51/59] fix: tocf(dataset=False) prints the ledger, as
 documented

---
 riptable/rt_timers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timers.py b/riptable/rt_timers.py
index bc1a9bc..3a1fa0b 100644
--- a/riptable/rt_timers.py
+++ b/riptable/rt_timers.py
@@ -183,7 +183,7 @@ def tocf(dataset=True):
     """
     FA = TypeRegister.FastArray
     FA._LOFF()
-    return TypeRegister.MathLedger._LDUMP()
+    return TypeRegister.MathLedger._LDUMP(dataset=dataset)
 
 
 def ticp():
-- 
2.43.0


From e09b5ff93dd663845dc76769eb5b771c23e60685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 52/59] fix: add a recorded call to all MathLedger lists at
 once

The lists were filled piecemeal while the arguments were formatted, which may run recorded
functions itself or fail, leaving entries of different calls in one row.
---
 riptable/rt_ledger.py | 86 +++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index dc9687f..ee2efa9 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -276,86 +276,86 @@ class MathLedger(Struct):
 
         delta = (GetNanoTime() - startTime) / 1000000000.0
 
-        cls.TotalTime += delta
-        cls.TotalOperations += 1
         deltaTime = float("{0:.9f}".format(delta))
 
-        # add to the ledger
-        # cls.UFuncLedger.append(f"{func.__name__}\t{cls.TotalOperations}\t{deltaTime}\t{args}\t{kwargs}")
+        # describe the call before anything is added to the ledger: this code may fail or run
+        # recorded functions itself, and every list must get its entry for a call together
         # check if CRC option set
         if cls.DOCRC and isinstance(result, np.ndarray):
             crc = rc.CalculateCRC(result)
-            cls.UCRC.append(crc)
         else:
-            cls.UCRC.append(0)
+            crc = 0
 
         # sub name for math functions
         if func == rc.BasicMathTwoInputs or func == rc.BasicMathOneInput:
-            cls.USubName.append(MATH_OPERATION(args[1]).name)
+            subName = MATH_OPERATION(args[1]).name
         else:
-            cls.USubName.append("")
+            subName = ""
 
-        # cls.UFuncLedger.append(ledger)
-        cls.UFuncName.append(func.__name__)
-        cls.UDeltaTime.append(deltaTime)
+        args1, args2, args3 = "", "", ""
+        args1Type, args1Len = f"{type(None)}", 0
         if len(args) > 0:
             args0 = args[0]
             if isinstance(args0, tuple):
                 args0 = args0[0]
 
-            cls.UArgs1.append(f"{args0}")
+            args1 = f"{args0}"
 
             try:
-                cls.UArgs1Type.append(f"{args0.dtype}")
-            except:
-                cls.UArgs1Type.append(f"{type(args0)}")
+                args1Type = f"{args0.dtype}"
+            except Exception:
+                args1Type = f"{type(args0)}"
 
             try:
-                cls.UArgs1Len.append(len(args0))
-            except:
-                cls.UArgs1Len.append(0)
+                args1Len = len(args0)
+            except Exception:
+                args1Len = 0
 
             if len(args) > 1:
-                cls.UArgs2.append(f"{args[1]}")
+                args2 = f"{args[1]}"
                 if len(args) > 2:
-                    cls.UArgs3.append(f"{args[2]}")
-                else:
-                    cls.UArgs3.append("")
-            else:
-                cls.UArgs2.append("")
-                cls.UArgs3.append("")
-        else:
-            cls.UArgs1Type.append(f"{type(None)}")
-            cls.UArgs1Len.append(0)
-            cls.UArgs1.append("")
-            cls.UArgs2.append("")
-            cls.UArgs3.append("")
+                    args3 = f"{args[2]}"
 
-        cls.UKwargs.append(f"{kwargs}")
-        cls.UArgLen.append(len(args))
+        kwargsStr = f"{kwargs}"
 
         if result is not None:
             r0 = result
             if isinstance(r0, tuple):
                 r0 = r0[0]
 
-            cls.UResult.append(f"{r0}")
+            resultStr = f"{r0}"
 
             try:
-                cls.UResultLen.append(len(r0))
-            except:
-                cls.UResultLen.append(0)
+                resultLen = len(r0)
+            except Exception:
+                resultLen = 0
 
             try:
-                cls.UResultType.append(f"{r0.dtype}")
-            except:
-                cls.UResultType.append(f"{type(r0)}")
+                resultType = f"{r0.dtype}"
+            except Exception:
+                resultType = f"{type(r0)}"
 
         else:
             # nothing was returned
-            cls.UResult.append("None")
-            cls.UResultLen.append(0)
-            cls.UResultType.append("")
+            resultStr, resultLen, resultType = "None", 0, ""
+
+        # add to the ledger
+        cls.TotalTime += delta
+        cls.TotalOperations += 1
+        cls.UCRC.append(crc)
+        cls.USubName.append(subName)
+        cls.UFuncName.append(func.__name__)
+        cls.UDeltaTime.append(deltaTime)
+        cls.UArgs1.append(args1)
+        cls.UArgs1Type.append(args1Type)
+        cls.UArgs1Len.append(args1Len)
+        cls.UArgs2.append(args2)
+        cls.UArgs3.append(args3)
+        cls.UKwargs.append(kwargsStr)
+        cls.UArgLen.append(len(args))
+        cls.UResult.append(resultStr)
+        cls.UResultLen.append(resultLen)
+        cls.UResultType.append(resultType)
 
         return result
 
-- 
2.43.0


From d6cf19e48a16a3d22735c1dd994932357174f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:05 +0000
Subject: [PATCH 53/59] fix: write the recorded operations in
 MathLedger._LedgerDumpFile

The file got only the totals, was never closed, and errors were ignored.
---
 riptable/rt_ledger.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index ee2efa9..117b35d 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -134,15 +134,10 @@ class MathLedger(Struct):
 
     @classmethod
     def _LedgerDumpFile(cls, filename):
-        import sys
+        import contextlib
 
-        old_stdout = sys.stdout
-        try:
-            sys.stdout = open(filename, "w")
-            cls._LedgerDump()
-        except:
-            pass
-        sys.stdout = old_stdout
+        with open(filename, "w") as outfile, contextlib.redirect_stdout(outfile):
+            cls._LedgerDump(dataset=False)
 
     @classmethod
     def _LON(cls):
-- 
2.43.0


From a7dcae454d5cc3635c8ec8636df55c3e86146250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:01 +0000
Subject: [PATCH 54/59] fix: tocp(find=) reported primitive calls of recursive
 functions as all calls

The caller tuples hold (ncalls, primitive calls, ...); they were unpacked in the other order.
---
 riptable/rt_timers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timers.py b/riptable/rt_timers.py
index 3a1fa0b..ed9a34c 100644
--- a/riptable/rt_timers.py
+++ b/riptable/rt_timers.py
@@ -415,7 +415,7 @@ def snapshot_stats(pr, sort="tottime", calls=True, findfunc=None):
                         # NOTE: not sure this is
                         for k, v in callers.items():
                             name, filepathc = parse_func_info(k)
-                            cc1, nc1, tt1, ct1 = v
+                            nc1, cc1, tt1, ct1 = v
 
                             callcount.append(cc1)
                             ncalls.append(nc1)
-- 
2.43.0


From cc86c1a66c0555db6ae32744b90199cbd215b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:52 +0000
Subject: [PATCH 55/59] fix: shared-memory listing and clearing report a
 failing directory listing, view() lists all shares

---
 riptable/rt_sharedmemory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_sharedmemory.py b/riptable/rt_sharedmemory.py
index 46b9448..305a988 100644
--- a/riptable/rt_sharedmemory.py
+++ b/riptable/rt_sharedmemory.py
@@ -26,7 +26,7 @@ class SharedMemoryMeta(type):
             try:
                 dir = os.listdir(cls.SM_FOLDER)
                 return [f[plen:] for f in dir if f.startswith(prefix)]
-            except Exception as e:
+            except FileNotFoundError:
                 return []
 
     # ------------------------------------------------------------------------------------
@@ -47,7 +47,7 @@ class SharedMemoryMeta(type):
             )
 
     # ------------------------------------------------------------------------------------
-    def view(cls, sharename=""):
+    def view(cls, sharename=None):
         """
         (Linux only)
         TODO: add option for file info
@@ -80,7 +80,7 @@ class SharedMemoryMeta(type):
             for f in dir:
                 if f.startswith(prefix):
                     fullpaths.append(cls.SM_FOLDER + f)
-        except Exception as e:
+        except FileNotFoundError:
             pass
         return fullpaths
 
-- 
2.43.0


From d4f08cadb09651c95a3d6a6159d3d68a5e9632f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:25 +0000
Subject: [PATCH 56/59] fix: files, items and sections with non-ASCII names
 load and stack

Saving passes the names to riptide_cpp as bytes, loading passed them as str, which it only converts
when they are ASCII; other names raised SystemError or UnicodeDecodeError on load.
---
 riptable/rt_sds.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 366cfd8..c22f6f3 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -195,6 +195,11 @@ def _anypath_to_str(s: AnyPath) -> str:
     return os.fsdecode(s)
 
 
+def _names_to_bytes(names):
+    """Normalize a list of file, item or section names for the C++ layer, which only converts ASCII `str` by itself."""
+    return [os.fsencode(x) for x in names] if isinstance(names, (list, tuple)) else names
+
+
 # -----------------------------------------------------------------------------------------
 def sds_os(func: Callable, path: AnyPath) -> Any:
     """
@@ -1456,7 +1461,7 @@ def _stacked(filenames, result, folders):
     arrays, meta_tups, cutoffs, meta, loadedpaths, fileheader = result
 
     # check which files were loaded, warn with list of load failures
-    found, _ = ismember(filenames, loadedpaths)
+    found, _ = ismember(_names_to_bytes(filenames), loadedpaths)
     if sum(found) != len(found):
         badlist = [filenames[idx] for idx, f in enumerate(found) if not f]
         warnings.warn(f"Error loading files: {badlist}", stacklevel=2)
@@ -1574,13 +1579,13 @@ def _stack_sds_files(
             filter = None
 
         result = rc.MultiStackFiles(
-            filenames,
-            include=include,
+            _names_to_bytes(filenames),
+            include=_names_to_bytes(include),
             folders=folders,
             filter=filter,
             mask=mask,
             mustexist=mustexist,
-            sections=sections,
+            sections=_names_to_bytes(sections),
             reserve=reserve,
         )
 
@@ -2131,7 +2136,7 @@ def sds_concat(
     filenames = [os.fspath(x) for x in filenames]
     output = None if output is None else os.fspath(output)
 
-    result = rc.MultiConcatFiles(filenames, output=output, include=include)
+    result = rc.MultiConcatFiles(_names_to_bytes(filenames), output=output, include=_names_to_bytes(include))
 
 
 # -----------------------------------------------------------------------------------------
@@ -2303,13 +2308,13 @@ def decompress_dataset_internal(
                 # this path checks for just one file.  this file may have been appended to and so contains multple files inside
                 # if we detect the appended file ('StackType'==1), we default to stacking unless a forced stack=False
                 result = rc.MultiPossiblyStackFiles(
-                    filename,
-                    include=include,
+                    _names_to_bytes(filename),
+                    include=_names_to_bytes(include),
                     folders=folders,
                     filter=filter,
                     mask=mask,
                     mustexist=mustexist,
-                    sections=sections,
+                    sections=_names_to_bytes(sections),
                 )
 
                 if result is None:
@@ -2339,11 +2344,11 @@ def decompress_dataset_internal(
             else:
                 # meta, arrs, meta_tups, fileheader_dict
                 result = rc.MultiDecompressFiles(
-                    filename,
+                    _names_to_bytes(filename),
                     mode,
-                    include=include,
+                    include=_names_to_bytes(include),
                     folders=folders,
-                    sections=sections,
+                    sections=_names_to_bytes(sections),
                     filter=filter,
                     mask=mask,
                     mustexist=mustexist,
-- 
2.43.0


From 5b08f18e30f673794c935322ea1962315a71e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:40 +0000
Subject: [PATCH 57/59] fix: a one-file Struct from an interrupted save raises
 on load also when it holds only empty Structs

---
 riptable/rt_sds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index c22f6f3..75718ea 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2725,13 +2725,13 @@ def skeleton_from_meta_data(container_type, filepath, meta, arrays, meta_tups, f
 
 
 # ------------------------------------------------------------------------------------
-def _check_all_items_loaded(path, arrs, meta_tups):
+def _check_all_items_loaded(path, arrs, meta_tups, onefile=False):
     """
     Every item that was not saved to its own file must have an array in a full load,
     otherwise the save was interrupted.
     """
     for i, tup in enumerate(meta_tups):
-        if not tup[1] & SDSFlag.Nested and (i >= len(arrs) or arrs[i] is None):
+        if (onefile or not tup[1] & SDSFlag.Nested) and (i >= len(arrs) or arrs[i] is None):
             raise ValueError(f"The file {path} is incomplete, no data was found for item {tup[0]}.")
 
 
@@ -3685,7 +3685,8 @@ def _read_sds(
         meta, arrs, meta_tups, fileheader_dict = multiload
 
     if not info and include is None and folders is None and sections is None and filter is None:
-        _check_all_items_loaded(path, arrs, meta_tups)
+        onefile = fileheader_dict.get("FileType", None) == SDSFileType.OneFile
+        _check_all_items_loaded(path, arrs, meta_tups, onefile)
 
     ftype = fileheader_dict.get("FileType", None)
 
-- 
2.43.0


From bdc43de856c0414ed3fe60d219df973224268d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:04 +0000
Subject: [PATCH 58/59] fix: folders with non-ASCII names load from one-file
 saves

---
 riptable/rt_sds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 75718ea..863820a 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1581,7 +1581,7 @@ def _stack_sds_files(
         result = rc.MultiStackFiles(
             _names_to_bytes(filenames),
             include=_names_to_bytes(include),
-            folders=folders,
+            folders=_names_to_bytes(folders),
             filter=filter,
             mask=mask,
             mustexist=mustexist,
@@ -2310,7 +2310,7 @@ def decompress_dataset_internal(
                 result = rc.MultiPossiblyStackFiles(
                     _names_to_bytes(filename),
                     include=_names_to_bytes(include),
-                    folders=folders,
+                    folders=_names_to_bytes(folders),
                     filter=filter,
                     mask=mask,
                     mustexist=mustexist,
@@ -2347,7 +2347,7 @@ def decompress_dataset_internal(
                     _names_to_bytes(filename),
                     mode,
                     include=_names_to_bytes(include),
-                    folders=folders,
+                    folders=_names_to_bytes(folders),
                     sections=_names_to_bytes(sections),
                     filter=filter,
                     mask=mask,
-- 
2.43.0


From 2f48f41e0ba6f06d816d3b3fa36a3259ed472728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:25 +0000
Subject: [PATCH 59/59] fix: mapping_replace drops the replaced name; mapping
 edits reach the grouping of unpickled Categoricals

---
 riptable/rt_categorical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9b302a8..dcc3a66 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1100,6 +1100,9 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            # the replaced name no longer stands for this code
+                            if self.str2intdict.get(exists) == code:
+                                del self.str2intdict[exists]
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
@@ -4874,7 +4877,9 @@ class Categorical(GroupByOps, FastArray):
         self._gb_keychain = None
         # the grouping attached to the categories may be a copy of this one
         edited = self._categories_wrap.grouping
-        if edited is not self.grouping and not self.isenum:
+        if edited is not self.grouping and self.isenum:
+            self.grouping._enum = edited._enum
+        elif edited is not self.grouping:
             self.grouping._grouping_unique_dict = edited._grouping_unique_dict
             self.grouping._unique_count = edited._unique_count
             self.grouping.Ordered = edited.Ordered
-- 
2.43.0

