From 591dddb06555ecaf76c63b257b477c94e3c1e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 001/129] fix: keep the order of lists and tuples of more than
 ten items in hspy/zspy files

---
 rsciio/_hierarchical.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..1d17fdf 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -157,6 +157,12 @@ def get_signal_chunks(shape, dtype, signal_axes=None, target_size=1e6):
         return tuple(int(x) for x in chunks)
 
 
+def _index_key(item):
+    # The items of a list or tuple are saved with their index as key: sort
+    # numerically, because "10" comes before "2" in alphabetical order
+    return len(item[0]), item[0]
+
+
 class HierarchicalReader:
     """A generic Reader class for reading data from hierarchical file types."""
 
@@ -644,7 +650,8 @@ class HierarchicalReader:
                     dictionary[key[7 + key[6:].find("_") :]] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            iter(self._group2dict(group[key], lazy=lazy).items()),
+                            key=_index_key,
                         )
                     ]
                 elif key.startswith("_tuple_"):
@@ -652,7 +659,8 @@ class HierarchicalReader:
                         [
                             i
                             for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
+                                iter(self._group2dict(group[key], lazy=lazy).items()),
+                                key=_index_key,
                             )
                         ]
                     )
-- 
2.43.0


From d9f485abb3cb07c262cca3da865565cd43cec272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 002/129] fix: save string arrays with non-ascii characters in
 hspy/zspy files

---
 rsciio/_hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 1d17fdf..00260c1 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -626,7 +626,7 @@ class HierarchicalReader:
                     elif data_.dtype.char == "S":
                         data_ = np.array(data_)
                         try:
-                            data_ = data_.astype("U")
+                            data_ = np.char.decode(data_, "utf-8")
                         except UnicodeDecodeError:
                             # There are some strings that must stay in binary,
                             # for example dill pickles. This will obviously also
@@ -766,7 +766,10 @@ class HierarchicalWriter:
                 )
         if np.issubdtype(data.dtype, np.dtype("U")):
             # Saving numpy unicode type is not supported in h5py
-            data = data.astype(np.dtype("S"))
+            if is_dask_array(data):
+                data = data.astype(np.dtype("S"))
+            else:
+                data = np.char.encode(data, "utf-8")
 
         if data.dtype != np.dtype("O"):
             got_data = False
-- 
2.43.0


From b2bab23fb2414e03ca2825f8d40999c538e349b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 003/129] fix: drop the previous representation of a key when
 updating a hspy/zspy file

---
 rsciio/_hierarchical.py | 68 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 00260c1..48e5f33 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -19,6 +19,7 @@
 import ast
 import datetime
 import logging
+import re
 import warnings
 
 import h5py
@@ -825,6 +826,9 @@ class HierarchicalWriter:
             )
         else:
             cls._store_data(data, dset, group, key, chunks, show_progressbar)
+            if f"_ragged_shapes_{key}" in group:
+                # left from a ragged array previously saved with the same key
+                del group[f"_ragged_shapes_{key}"]
 
     def write(self):
         self.write_signal(self.signal, self.group, **self.kwds)
@@ -888,11 +892,20 @@ class HierarchicalWriter:
 
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
+        # When updating an existing file, the same key may have been saved with
+        # another representation (attribute, dataset, group, etc.)
+        existing = set(group.attrs.keys()) | set(group.keys())
         for key, value in dictionary.items():
             _logger.debug("Saving item: {}".format(key))
+            # name of the attribute, dataset or group used for this value
+            name = key
             if isinstance(value, dict):
+                if key in existing and isinstance(group.get(key), self.Dataset):
+                    del group[key]
                 self.dict2group(value, group.require_group(key), **kwds)
             elif isinstance(value, (np.ndarray, self.Dataset)) or is_dask_array(value):
+                if key in group and not isinstance(group[key], self.Dataset):
+                    del group[key]
                 self.overwrite_dataset(group, value, key, **kwds)
 
             elif value is None:
@@ -903,24 +916,28 @@ class HierarchicalWriter:
                     # binary string if has any null characters (otherwise not
                     # supported by hdf5)
                     value.index(b"\x00")
-                    group.attrs["_bs_" + key] = np.void(value)
+                    name = "_bs_" + key
+                    group.attrs[name] = np.void(value)
                 except ValueError:
-                    group.attrs[key] = value.decode()
+                    name = key
+                    group.attrs[name] = value.decode()
 
             elif isinstance(value, str):
                 group.attrs[key] = value
 
             elif isinstance(value, list):
                 if len(value):
-                    self.parse_structure(key, group, value, "_list_", **kwds)
+                    name = self.parse_structure(key, group, value, "_list_", **kwds)
                 else:
-                    group.attrs["_list_empty_" + key] = "_None_"
+                    name = "_list_empty_" + key
+                    group.attrs[name] = "_None_"
 
             elif isinstance(value, tuple):
                 if len(value):
-                    self.parse_structure(key, group, value, "_tuple_", **kwds)
+                    name = self.parse_structure(key, group, value, "_tuple_", **kwds)
                 else:
-                    group.attrs["_tuple_empty_" + key] = "_None_"
+                    name = "_tuple_empty_" + key
+                    group.attrs[name] = "_None_"
 
             else:
                 try:
@@ -931,6 +948,38 @@ class HierarchicalWriter:
                         f"information in the file: {key} : {value}"
                     )
 
+            if existing:
+                is_item = name in group and (
+                    isinstance(value, dict)
+                    or isinstance(value, (list, tuple, np.ndarray, self.Dataset))
+                    or is_dask_array(value)
+                )
+                self._remove_stale_items(group, key, name, is_item, existing)
+
+    def _remove_stale_items(self, group, key, name, is_item, existing):
+        """
+        Remove what an earlier saving of the same key has left in the group,
+        other than the item (dataset or group) or the attribute ``name``, which
+        has just been written: it would otherwise be read instead of the new
+        value.
+        """
+        pattern = re.compile(
+            rf"(?:_bs_|_list_empty_|_tuple_empty_)?{re.escape(key)}"
+            rf"|_(?:list|tuple)_(?P<size>\d+_)?{re.escape(key)}"
+        )
+        for item in existing:
+            match = pattern.fullmatch(item)
+            if match is None:
+                continue
+            if item in group.attrs and (is_item or item != name):
+                del group.attrs[item]
+            if item in group and not (is_item and item == name):
+                is_dataset = isinstance(group[item], self.Dataset)
+                # "_list_3_x" is either the group of the items of "x" or the
+                # dataset of the items of "3_x"
+                if item == key or is_dataset == (match.group("size") is None):
+                    del group[item]
+
     def parse_structure(self, key, group, value, _type, **kwds):
         try:
             # Here we check if there are any signals in the container, as
@@ -944,12 +993,14 @@ class HierarchicalWriter:
             tmp = np.array([[0]])
 
         if np.issubdtype(tmp.dtype, object) or tmp.ndim != 1:
+            name = _type + str(len(value)) + "_" + key
             self.dict2group(
                 dict(zip([str(i) for i in range(len(value))], value)),
-                group.require_group(_type + str(len(value)) + "_" + key),
+                group.require_group(name),
                 **kwds,
             )
         elif np.issubdtype(tmp.dtype, np.dtype("U")):
+            name = _type + key
             if _type + key in group:
                 del group[_type + key]
             group.create_dataset(
@@ -957,6 +1008,9 @@ class HierarchicalWriter:
             )
             group[_type + key][:] = tmp[:]
         else:
+            name = _type + key
             if _type + key in group:
                 del group[_type + key]
             group.create_dataset(_type + key, data=tmp, **kwds)
+
+        return name
-- 
2.43.0


From c078be22a4092f6f698727bb4172d48ce1cbdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 004/129] fix: don't lose lazily loaded arrays when overwriting
 the hspy/zspy file they are read from

---
 rsciio/_hierarchical.py | 45 +++++++++++++++++++++++++++++++++++++++++
 rsciio/hspy/_api.py     | 16 ++++++++++++++-
 rsciio/zspy/_api.py     | 23 ++++++++++++++++++++-
 3 files changed, 82 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 48e5f33..a39611d 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -164,6 +164,51 @@ def _index_key(item):
     return len(item[0]), item[0]
 
 
+def load_arrays_to_overwrite(signal, in_file):
+    """
+    Prepare a signal for overwriting the file it may have been loaded from.
+
+    Parameters
+    ----------
+    signal : dict
+        The signal dictionary.
+    in_file : callable
+        Tell whether an array is stored in the file to overwrite.
+
+    Returns
+    -------
+    signal : dict
+        The signal dictionary, in which the dask arrays of the metadata, which
+        are read from the file to overwrite, are in memory.
+
+    Raises
+    ------
+    OSError
+        If the data itself are read lazily from the file to overwrite.
+    """
+
+    def is_read_from_file(value):
+        return is_dask_array(value) and any(
+            isinstance(key, str) and in_file(value.dask[key])
+            for key in value.dask.keys()
+        )
+
+    def load(value):
+        if isinstance(value, dict):
+            return {k: load(v) for k, v in value.items()}
+        elif isinstance(value, (list, tuple)):
+            return type(value)([load(v) for v in value])
+        return value.compute() if is_read_from_file(value) else value
+
+    if is_read_from_file(signal["data"]):
+        raise OSError(
+            "The file can't be overwritten, because the data of the lazy signal "
+            "are read from it. Load the data in memory or save the signal in "
+            "another file."
+        )
+    return {k: load(v) if isinstance(v, dict) else v for k, v in signal.items()}
+
+
 class HierarchicalReader:
     """A generic Reader class for reading data from hierarchical file types."""
 
diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..cf2e258 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -35,7 +35,12 @@ from rsciio._docstrings import (
     SHOW_PROGRESSBAR_DOC,
     SIGNAL_DOC,
 )
-from rsciio._hierarchical import HierarchicalReader, HierarchicalWriter, version
+from rsciio._hierarchical import (
+    HierarchicalReader,
+    HierarchicalWriter,
+    load_arrays_to_overwrite,
+    version,
+)
 from rsciio.utils import file
 from rsciio.utils._array import is_dask_array
 from rsciio.utils._context_manager import get_progress_bar_context_manager
@@ -274,6 +279,15 @@ def file_writer(
         if mode != "a" and not write_dataset:
             raise ValueError("`mode='a'` is required to use `write_dataset=False`.")
         if mode in ("w", "w-", "x"):
+            path = Path(filename).absolute()
+            signal = load_arrays_to_overwrite(
+                signal,
+                lambda x: (
+                    isinstance(x, h5py.Dataset)
+                    and bool(x)
+                    and Path(x.file.filename).absolute() == path
+                ),
+            )
             _close_tracked_handles(filename)
         f = h5py.File(filename, mode=mode)
 
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..802720a 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -17,6 +17,7 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 import logging
+import os
 import zipfile
 from collections.abc import MutableMapping
 
@@ -32,7 +33,12 @@ from rsciio._docstrings import (
     SHOW_PROGRESSBAR_DOC,
     SIGNAL_DOC,
 )
-from rsciio._hierarchical import HierarchicalReader, HierarchicalWriter, version
+from rsciio._hierarchical import (
+    HierarchicalReader,
+    HierarchicalWriter,
+    load_arrays_to_overwrite,
+    version,
+)
 from rsciio.utils._array import is_dask_array
 from rsciio.utils._context_manager import get_progress_bar_context_manager
 
@@ -242,6 +248,21 @@ def file_writer(
 
     mode = "w" if write_dataset else "a"
 
+    if mode == "w":
+        path = getattr(store, "path", None)
+        signal = load_arrays_to_overwrite(
+            signal,
+            lambda x: (
+                isinstance(x, zarr.Array)
+                and (
+                    x.store is store
+                    or path is not None
+                    and getattr(x.store, "path", None) is not None
+                    and os.path.abspath(x.store.path) == os.path.abspath(path)
+                )
+            ),
+        )
+
     _logger.debug(f"File mode: {mode}")
     _logger.debug(f"Zarr store: {store}")
 
-- 
2.43.0


From 38e87eaa2f9cb6b7bb1f4c2b79adf6445dbadb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 005/129] fix: saving with mode='a' to an existing hspy file

---
 rsciio/hspy/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index cf2e258..2d72727 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -275,7 +275,7 @@ def file_writer(
     if f is None:
         # with "write_dataset=False", we need mode='a', otherwise the dataset
         # will be flushed with using 'w' mode
-        mode = kwds.get("mode", "w" if write_dataset else "a")
+        mode = kwds.pop("mode", "w" if write_dataset else "a")
         if mode != "a" and not write_dataset:
             raise ValueError("`mode='a'` is required to use `write_dataset=False`.")
         if mode in ("w", "w-", "x"):
-- 
2.43.0


From b245be0f974136bc7af8a2b3b9fde67e9dcdbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 006/129] fix: reading lazily hspy/zspy files with ragged
 arrays in the metadata

---
 rsciio/_hierarchical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index a39611d..0e64c3e 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -679,9 +679,10 @@ class HierarchicalReader:
                             # let "wrong" binary string fail somewhere else...
                             pass
                     elif lazy:
-                        import dask.array as da
+                        if not is_dask_array(data_):
+                            import dask.array as da
 
-                        data_ = da.from_array(data_, chunks=data_.chunks)
+                            data_ = da.from_array(data_, chunks=data_.chunks)
                     else:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
-- 
2.43.0


From 0d63d745c7b0ce8886d5adfe9a08792a06891f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 007/129] fix: reading images lazily

---
 rsciio/image/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..e380cdb 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -240,8 +240,9 @@ def file_reader(filename, lazy=False, **kwds):
         from dask import delayed
         from dask.array import from_delayed
 
+        data = _read_data(filename, **kwds)
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
+        dc = from_delayed(val, shape=data.shape, dtype=data.dtype)
     else:
         dc = _read_data(filename, **kwds)
 
-- 
2.43.0


From 9fb35789cf4fa9d8c86fc67ebdc7057b099befe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 008/129] fix: reading RGB images with equal green and blue
 channels as RGB

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index e380cdb..86ba1cc 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -273,7 +273,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 3215b7e1ae20766e785a6b3ee869ad5b01943732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 009/129] fix: reading lazily compressed prz files

---
 rsciio/pantarhei/_api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..8dfd602 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -110,6 +110,12 @@ def file_reader(
             with zf.open("data.npy") as f:
                 offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
 
+    if lazy and data_info.compress_type != zipfile.ZIP_STORED:
+        # Compressed data can't be memory mapped
+        import dask.array as da
+
+        data = da.from_array(prz_file["data"], chunks=chunks)
+    elif lazy:
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
             f.seek(data_info.header_offset)
-- 
2.43.0


From d77a77f5c32e6a7b6f024a725cbe98758afbe465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 010/129] fix: reading lazily npy and prz files with data in
 Fortran order

---
 rsciio/numpy/_api.py     |  9 ++++++---
 rsciio/pantarhei/_api.py | 10 ++++++----
 rsciio/utils/_tools.py   | 22 ++++++++++++++++------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..b8a7c64 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -29,6 +29,7 @@ from rsciio._docstrings import (
 )
 from rsciio.utils import file
 from rsciio.utils._array import is_dask_array
+from rsciio.utils._tools import _read_npy_header
 
 
 def inspect_npy_file(filename):
@@ -116,12 +117,14 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     dask.array<array, shape=(1000, 1000, 500, 500), dtype=float64, chunksize=(100, 100, 250, 250)>
     """
     if lazy:
-        offset, shape, dtype = inspect_npy_file(filename)
+        with open(filename, "rb") as f:
+            offset, header = _read_npy_header(f)
+        kwargs.setdefault("order", "F" if header["fortran_order"] else "C")
         data = file.memmap_distributed(
             filename,
             offset=offset,
-            shape=shape,
-            dtype=np.dtype(dtype),
+            shape=header["shape"],
+            dtype=np.dtype(header["descr"]),
             chunks=chunks,
             **kwargs,
         )
diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 8dfd602..80bdf87 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -37,7 +37,8 @@ from rsciio._docstrings import (
 )
 from rsciio.pantarhei._restricted_unpickling import read_pickled_array
 from rsciio.utils._dictionary import DTBox
-from rsciio.utils.file import inspect_npy_bytes, memmap_distributed
+from rsciio.utils._tools import _read_npy_header
+from rsciio.utils.file import memmap_distributed
 
 _logger = logging.getLogger(__name__)
 
@@ -108,7 +109,7 @@ def file_reader(
             data_info = zf.getinfo("data.npy")
             # Open the data.npy file within the archive
             with zf.open("data.npy") as f:
-                offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
+                offset_in_npy, header = _read_npy_header(f)
 
     if lazy and data_info.compress_type != zipfile.ZIP_STORED:
         # Compressed data can't be memory mapped
@@ -131,8 +132,9 @@ def file_reader(
         data = memmap_distributed(
             filename,
             offset=offset,
-            shape=shape,
-            dtype=np.dtype(dtype_str),
+            shape=header["shape"],
+            dtype=np.dtype(header["descr"]),
+            order="F" if header["fortran_order"] else "C",
             chunks=chunks,
             **kwargs,
         )
diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index fe7343f..b50f500 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -159,6 +159,21 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     ...     offset, shape, dtype = inspect_npy_bytes(f)
     """
 
+    offset, header_dict = _read_npy_header(file_)
+
+    return offset, header_dict["shape"], header_dict["descr"]
+
+
+def _read_npy_header(file_: IO[bytes]) -> tuple[int, dict]:
+    """
+    Read the header of a .npy byte stream, see :func:`inspect_npy_bytes`.
+
+    Returns
+    -------
+    tuple
+        The byte offset where the data starts and the header, a dictionary with
+        the keys ``descr``, ``shape`` and ``fortran_order``.
+    """
     # Read magic string and version
     _ = file_.read(6)
     major, _ = struct.unpack("BB", file_.read(2))
@@ -182,9 +197,4 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     header = file_.read(header_len).decode(encoding)
     header_dict = ast.literal_eval(header)
 
-    # Extract metadata
-    shape = header_dict["shape"]
-    dtype = header_dict["descr"]
-    offset = header_offset + header_len
-
-    return offset, shape, dtype
+    return header_offset + header_len, header_dict
-- 
2.43.0


From 1d4a7e6eecb441aa26cfdc4e3b510602372248ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 011/129] fix: loading frames at arbitrary positions in chunks
 with a single row or column

---
 rsciio/utils/_distributed.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index d08c1df..ddd71dc 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -161,12 +161,12 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
     numpy.ndarray
         Array of the data from the memory mapped file sliced using the provided slice.
     """
-    slices_ = np.squeeze(slices)[()]
     data = np.memmap(file, dtypes, shape=shape, **kwargs)
     if key is not None:
         data = data[key]
     if positions:
-        # We have arbitrary positions.
+        # We have arbitrary positions: the last two dimensions are the signal ones
+        slices_ = np.asarray(slices)[..., 0, 0]
         if -1 in slices_:  # -1 means empty frame we will return 0.
             result = data[slices_]
             result[slices_ == -1] = 0
@@ -174,12 +174,9 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
         else:
             return data[slices_]
     else:
-        if slices_.ndim == 1:
-            # Special case data with single axis
-            slices_ = slice(*tuple(slices_))
-        else:
-            slices_ = tuple([slice(s[0], s[1]) for s in slices_])
-        return data[slices_]
+        # one slice (start, stop) for each dimension
+        slices_ = np.asarray(slices).reshape(-1, 2)
+        return data[tuple(slice(s[0], s[1]) for s in slices_)]
 
 
 def memmap_distributed(
-- 
2.43.0


From 07bea4824489ac1d3e3efa893498712ae06c59df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 012/129] fix: shape of the SEM/STEM image of non-square JEOL
 pts files

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..4a0de55 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -807,7 +807,7 @@ def _readcube(
     else:
         hypermap = np.zeros((n_frames, height, width, channel_number), dtype=SI_dtype)
 
-    em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)
+    em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)
 
     max_value = np.iinfo(SI_dtype).max
 
-- 
2.43.0


From 79f6b2a95bc7a44fa50996ce23b4c2870f9c925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 013/129] fix: signal axes of the SEM/STEM image of JEOL pts
 files

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 4a0de55..6d58ebd 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -555,7 +555,7 @@ def _read_pts(
                 },
             ]
         )
-        axes = axes_em.copy()
+        axes = [ax.copy() for ax in axes_em]
         for ax in axes:
             ax["navigate"] = True
         axes.append(
-- 
2.43.0


From 99f1e4797af7c7dac56e5da060952e8c9be253c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 014/129] fix: reading the first frames of JEOL pts files with
 frame shifts given for all

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 6d58ebd..baf6364 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -482,7 +482,7 @@ def _read_pts(
 
         if len(frame_shifts[0]) == 2:  # fill z with 0
             fr = np.zeros((max_frame, 3), dtype=np.int16)
-            fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)
+            fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)[:max_frame]
             frame_shifts = fr
 
         (
-- 
2.43.0


From 1e4980ed0e5e073ca5b245c9214a194882a2b964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 015/129] fix: do not change the frame_shifts array passed to
 the JEOL pts reader

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index baf6364..1fbba4e 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -819,7 +819,7 @@ def _readcube(
     min_shift[2] = 0
     max_shift[2] = 0
     sxyz = min_shift - max_shift
-    frame_shifts -= max_shift
+    frame_shifts = frame_shifts - max_shift
     width += sxyz[1]
     height += sxyz[0]
     valid = None
-- 
2.43.0


From 692906f8f0223fbc15923885c1c13931697e2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 016/129] fix: size of the frame axis when reading some frames
 of JEOL pts files

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 1fbba4e..8c7a0d9 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -526,7 +526,7 @@ def _read_pts(
                 {
                     "index_in_array": 0,
                     "name": "Frame",
-                    "size": sweep,
+                    "size": data.shape[0],
                     "offset": 0,
                     "scale": pixel_time * height * width / 1e3,
                     "units": "s",
-- 
2.43.0


From d53283c4cadfcd7feaad78f39525dad23df18b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 017/129] fix: reading JEOL pts files lazily

The first event after each frame was skipped, incomplete or downsampled frames,
frame shifts, non-square maps, empty frames and SI_dtype were not treated in the
same way as when reading eagerly.
---
 rsciio/jeol/_api.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 8c7a0d9..8ed71e4 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -939,7 +939,7 @@ def _readcube(
     # for lazy loading
     from rsciio.utils._fei_stream_readers import DenseSliceCOO
 
-    length = np.sum([len(d) for d in data_list])
+    length = sum(len(d) for d in data_list)
     # length = number of data points
 
     # v : [[frame_no, y, x, energy_channel, 1], ....]
@@ -948,7 +948,7 @@ def _readcube(
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=int).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
@@ -967,19 +967,29 @@ def _readcube(
         pv[4, :] = 1
         ptr += flen
         frame_count += 1
+    # the events outside the valid data cube have been removed
+    v = v[:, :ptr]
     if sum_frames:
         data_shape = [height, width, channel_number]
-        ar_s = DenseSliceCOO(v[1:4], v[4], shape=data_shape)
+        ar_s = DenseSliceCOO(v[1:4], v[4].astype(np.uint32), shape=data_shape)
+        em_image = em_image[0, :height, :width]
     else:
         data_shape = [frame_count, height, width, channel_number]
-        ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
-    if sum_frames:
-        em_image = em_image[0]
+        ar_s = DenseSliceCOO(v[0:4], v[4].astype(np.uint32), shape=data_shape)
+        em_image = em_image[:target_frame_num, :height, :width]
+    if ar_s.nnz and ar_s.data.max() >= max_value:
+        raise ValueError(
+            "The range of the dtype is too small, use `SI_dtype` to set a dtype "
+            "with higher range."
+        )
+    ar_s = DenseSliceCOO(ar_s.coords, ar_s.data.astype(SI_dtype), shape=ar_s.shape)
 
     import dask.array as da
 
     return (
-        da.from_array(ar_s, asarray=False),
+        da.from_array(
+            ar_s, chunks="auto" if ar_s.size else ar_s.shape, asarray=False
+        ),
         em_image,
         has_em_image,
         sweep,
@@ -1106,7 +1116,7 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
-    _1,
+    countup,
     _2,
     em_image,
     width,
@@ -1129,7 +1139,7 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
-    _1 : dummy parameter, not used
+    countup : 1 for summing up the SEM/STEM image, -1 to cancel selected frame
     _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
@@ -1165,13 +1175,14 @@ def _readframe_lazy(
     """
     data = []
     previous_x = 0
-    previous_y = 0
+    previous_y = -1
+    x = 0
+    y = 0
     MAX_VAL = 4096
     count = 0
     valid = False
     has_em_image = False
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
@@ -1184,22 +1195,25 @@ def _readframe_lazy(
                 break
             previous_y = value
             y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
             if 0 <= z and z < channel_number:
                 data.append([y, x, z])
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+        count += 1
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
         # (sometimes no x-ray events occur in a last few pixels.)
         # So, only the y value is checked
+        #
+        # > is need when downsampling is specified
         valid = True
     return count, data, has_em_image, valid, previous_y // height_norm
 
-- 
2.43.0


From cd6ab5532bb20fcb8cda557536f1eac500663a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 018/129] fix: digitalsurf: index_in_array of the signal axis
 of single spectra

---
 rsciio/digitalsurf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..6549484 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1411,7 +1411,9 @@ class DigitalSurfHandler(object):
             self.signal_dict["axes"].append(self._build_Yax(hypdic, ind=0, nav=True))
 
         # Add the signal axis_src to the signal dict
-        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
+        self.signal_dict["axes"].append(
+            self._build_Xax(hypdic, ind=len(self.signal_dict["axes"]), nav=False)
+        )
 
         # We reshape the data in the correct format.
         # Edit: the data is now squeezed for unneeded dimensions
-- 
2.43.0


From 361f91b2b73bc4a43ab1857443c47e07efd184d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 019/129] fix: digitalmicrograph: unpacking of packed complex
 images with an odd width

---
 rsciio/digitalmicrograph/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..8852fba 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -678,7 +678,8 @@ class ImageObject(object):
     def unpack_new_packed_complex(self, data):
         packed_shape = (self.shape[0], int(self.shape[1] / 2 + 1))
         data = data.reshape(packed_shape)
-        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:-1])))
+        stop = self.shape[1] - self.shape[1] // 2
+        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:stop])))
 
     def unpack_packed_complex(self, tmpdata):
         shape = self.shape
-- 
2.43.0


From 7160ad2ae131ab9bd25842e52dc8182d1cc47816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 020/129] fix: image: index_in_array of the axes

---
 rsciio/utils/_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_image.py b/rsciio/utils/_image.py
index 95d88de..6742bc6 100644
--- a/rsciio/utils/_image.py
+++ b/rsciio/utils/_image.py
@@ -63,7 +63,7 @@ def _parse_axes_from_metadata(exif_tags, sizes):
             "size": size,
             "scale": fields_of_views[i] / size,
             "offset": offsets[i],
-            "index_in_array": i,
+            "index_in_array": 1 - i,
         }
         for i, name, size in zip([1, 0], ["y", "x"], sizes)
     ]
-- 
2.43.0


From 5a55055f497a89275e25dcd2f798b6a2b1a38da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 021/129] fix: tia: index_in_array of the signal axis of single
 spectra

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..60a637a 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -590,7 +590,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                 "offset": data["CalibrationOffset"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
-                "index_in_array": header["NumberDimensions"][0],
+                "index_in_array": len(array_shape),
                 "navigate": False,
             }
         )
-- 
2.43.0


From 75e45abb0da9547bd5ac9c322c94120da6a39667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 022/129] fix: JEOL: frames listed after an incomplete frame in
 frame_list were dropped

---
 rsciio/jeol/_api.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 8ed71e4..f726153 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -875,7 +875,7 @@ def _readcube(
         )
         has_em_image = has_em_image or has_em
         if length == 0:  # no data
-            break
+            continue
         if valid or not only_valid_data:
             # accept last frame
             if lazy:
@@ -884,28 +884,28 @@ def _readcube(
             target_frame_num += frame_step
         else:
             # incomplete data, not accepted
+            # subtract signal counts of this frame
+            _ = readframe(
+                rawdata[p_start:],
+                -1,
+                hypermap[target_frame_num],
+                em_image[target_frame_num],
+                width,
+                height,
+                channel_number,
+                width_norm,
+                height_norm,
+                rebin_energy,
+                fs[1],
+                fs[0],
+                fs[2],
+                max_value,
+            )
             if sum_frames:
-                # subtract signal counts of last frame
-                _ = readframe(
-                    rawdata[p_start:],
-                    -1,
-                    hypermap[target_frame_num],
-                    em_image[target_frame_num],
-                    width,
-                    height,
-                    channel_number,
-                    width_norm,
-                    height_norm,
-                    rebin_energy,
-                    fs[1],
-                    fs[0],
-                    fs[2],
-                    max_value,
-                )
                 _logger.info(
                     "The last frame (sweep) is incomplete because the acquisition stopped during this frame. The partially acquired frame is ignored. Use 'sum_frames=False, only_valid_data=False' to read all frames individually, including the last partially completed frame."
                 )
-            break
+            continue
 
         p_start += length
         if frame_num < frame_start_index.size:
-- 
2.43.0


From 0ebeef5b7c513729a594d23d6526e8ac9601da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 023/129] fix: JEOL: scale of the frame axis when downsampling

---
 rsciio/jeol/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index f726153..7e5c7d1 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -421,6 +421,8 @@ def _read_pts(
             )
         # pixel time in milliseconds
         pixel_time = meas_data_header["Doc"]["DwellTime(msec)"]
+        # number of pixels scanned for one frame
+        pixel_number = width * height * downsample_width * downsample_height
 
         # Sweep value is not reliable, so +1 frame is needed if sum_frames = False
         # priority of the length of frame_start_index is higher than "sweep" in header
@@ -528,7 +530,7 @@ def _read_pts(
                     "name": "Frame",
                     "size": data.shape[0],
                     "offset": 0,
-                    "scale": pixel_time * height * width / 1e3,
+                    "scale": pixel_time * pixel_number / 1e3,
                     "units": "s",
                     "navigate": True,
                 }
-- 
2.43.0


From 135b999c463ce6bf0c3f48db7284b38d08e4c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 024/129] fix: memmap_distributed: deduce the shape from the
 size of the file after the offset

---
 rsciio/utils/_distributed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index ddd71dc..8ad97d4 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -245,7 +245,7 @@ def memmap_distributed(
 
     if shape is None:
         unit_size = np.dtype(dtype).itemsize
-        shape = int(os.path.getsize(filename) / unit_size)
+        shape = (os.path.getsize(filename) - offset) // unit_size
     if not isinstance(shape, tuple):
         shape = (shape,)
 
-- 
2.43.0


From 7aeccb53799bf188490052ef1c6045e61c01e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 025/129] fix: edax: byte order of spectrum images read eagerly

---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From fbbf0ba4493e7fe8af785e4dc5c99d4f1bf26ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 026/129] fix: quantumdetector: take into account last_frame
 for interrupted acquisition

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..3f1c5f1 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -275,7 +275,7 @@ def load_mib_data(
             if first_frame == 0 and len(navigation_shape) > 1:
                 navigation_shape = (
                     navigation_shape[0],
-                    frame_number_in_file // navigation_shape[0],
+                    number_of_frames_to_load // navigation_shape[0],
                 )[::-1]
             else:
                 navigation_shape = (number_of_frames_to_load,)
-- 
2.43.0


From 0f83568a38d5570852abc0ea7ac9c4b7ab8c1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 027/129] fix: quantumdetector: first_frame when loading from a
 buffer

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 3f1c5f1..9a4a4f2 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -330,7 +330,7 @@ def load_mib_data(
             path,
             dtype=merlin_frame_dtype,
             count=mib_prop.xy,
-            offset=mib_prop.offset,
+            offset=mib_prop.offset + merlin_frame_dtype.itemsize * first_frame,
         ).reshape(navigation_shape)
         headers = buffer["header"]
         data = buffer["data"]
-- 
2.43.0


From b03cb6f7b9c05b1624b027925718be9aeaa0cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 028/129] fix: quantumdetector: loading data of quad detectors
 from a buffer

---
 rsciio/quantumdetector/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 9a4a4f2..a6fc23a 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -162,8 +162,11 @@ class MIBProperties:
         # test if quad and read full quad header
         if head[2] == "00768":
             # read quad data
-            with open(self.path, "rb") as f:
-                head = f.read(768).decode().split(",")
+            if self.buffer:
+                head = path[:768].decode().split(",")
+            else:
+                with open(self.path, "rb") as f:
+                    head = f.read(768).decode().split(",")
             self.head_size = 768
             self.assembly_size = "quad"
 
-- 
2.43.0


From 9bb519960521b43106574aaec96cbfa978ce9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 029/129] fix: quantumdetector: parse_exposures and
 parse_timestamps with max_index=-1

---
 rsciio/quantumdetector/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index a6fc23a..ea81a02 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -421,8 +421,8 @@ def parse_exposures(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index == -1:
+        max_index = len(headers)
 
     # exposure time are in ns
     return [
@@ -470,8 +470,8 @@ def parse_timestamps(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index == -1:
+        max_index = len(headers)
 
     return [header.decode().split(",")[-4] for header in headers[:max_index]]
 
-- 
2.43.0


From e34733b3a8165bb8f30aaf0fe11289cc318632aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 030/129] fix: quantumdetector: path of the hdr file when a
 folder name contains .mib

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index ea81a02..d3448d9 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -533,7 +533,7 @@ def file_reader(
     """
     mib_prop = MIBProperties()
     mib_prop.parse_file(filename)
-    hdr_filename = str(filename).replace(".mib", ".hdr")
+    hdr_filename = os.path.splitext(str(filename))[0] + ".hdr"
 
     original_metadata = {"mib_properties": vars(mib_prop)}
 
-- 
2.43.0


From e84738b63074ca23c646a26f6e3f03426a0b880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 031/129] fix: tia: units of the offset of the spatial axes

---
 rsciio/tia/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 60a637a..ef8b447 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -640,9 +640,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         if axis["units"] == "meters":
             axis["units"] = "nm"
             axis["scale"] *= 10**9
+            axis["offset"] *= 10**9
         elif axis["units"] == "1/meters":
             axis["units"] = "1 / nm"
             axis["scale"] /= 10**9
+            axis["offset"] /= 10**9
 
     # Remove Nones from array_shape caused by squeezing size 1 dimensions
     array_shape = [dim for dim in array_shape if dim is not None]
-- 
2.43.0


From ffa8a2043a44712bcd8c25afc9daf245cc045c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 032/129] fix: tia: stacks of images with a dimension of size 1

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index ef8b447..3a67125 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -545,7 +545,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
             idim = 1 + i if order == "C" else ndim - i
             if (
                 record_by == "spectrum"
-                or header["Dim-%i_DimensionSize" % (i + 1)][0] != 1
+                or header["Dim-%i_DimensionSize" % idim][0] != 1
             ):
                 units = (
                     header["Dim-%i_Units" % (idim)][0].decode("utf-8")
-- 
2.43.0


From 8e18817c0f7d992111336d424a9b7226c13ba79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 033/129] fix: tia: finding the ser files of an emi file

---
 rsciio/tia/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 3a67125..7f0b11d 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -22,7 +22,7 @@ import struct
 import warnings
 import xml.etree.ElementTree as ET
 from collections import OrderedDict
-from glob import glob
+from glob import escape, glob
 
 import numpy as np
 from dateutil import parser
@@ -257,7 +257,12 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
             with open(filename + "-object-%s.xml" % i, "w") as f:
                 f.write(obj)
 
-    ser_files = sorted(glob(filename + "_[0-9].ser"))
+    ser_files = [
+        f
+        for f in glob(escape(filename) + "_*.ser")
+        if f[len(filename) + 1 : -4].isdigit()
+    ]
+    ser_files.sort(key=lambda f: int(f[len(filename) + 1 : -4]))
     sers = []
     for f in ser_files:
         _logger.info("Opening %s", f)
-- 
2.43.0


From 4ecb975e2f20d18637b74b0baa66d0746236989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 034/129] fix: tia: offset of the navigation and energy axes

---
 rsciio/tia/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 7f0b11d..dab65d2 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -563,7 +563,9 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                     name = None
                 axes.append(
                     {
-                        "offset": header["Dim-%i_CalibrationOffset" % idim][0],
+                        "offset": header["Dim-%i_CalibrationOffset" % idim][0]
+                        - header["Dim-%i_CalibrationElement" % idim][0]
+                        * header["Dim-%i_CalibrationDelta" % idim][0],
                         "scale": header["Dim-%i_CalibrationDelta" % idim][0],
                         "units": units,
                         "size": header["Dim-%i_DimensionSize" % idim][0],
@@ -592,7 +594,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
     if record_by == "spectrum":
         axes.append(
             {
-                "offset": data["CalibrationOffset"][0],
+                "offset": data["CalibrationOffset"][0]
+                - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
                 "index_in_array": len(array_shape),
-- 
2.43.0


From 91c8978e2bb5c297a69139dbddb528c2ba302c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 035/129] fix: digitalmicrograph: reading tags that are arrays
 of arrays

---
 rsciio/digitalmicrograph/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 8852fba..14aedfe 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -182,8 +182,8 @@ class DigitalMicrographReader(object):
                             size = self.read_l_or_q(self.f, "big")
                             data = self.read_array(
                                 size=size,
-                                enc_eltype=enc_eltype,
-                                extra={"size": el_length},
+                                enc_eltype=20,
+                                extra={"size": el_length, "enc_eltype": enc_eltype},
                                 skip=skip,
                             )
 
-- 
2.43.0


From afa1bbe22e4e9eb14af62b93ea228fc221da55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 036/129] fix: digitalmicrograph: byte order of the data

---
 rsciio/digitalmicrograph/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 14aedfe..9a4d34d 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -595,7 +595,11 @@ class ImageObject(object):
             27: "complex64",  # not numpy: 8-Byte packed complex (FFT data)
             28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
         }
-        return imdtype_dict[self.imdict.ImageData.DataType]
+        # the data are saved with the byte order of the file
+        endian = self.imdict.ImageData.Data.endian
+        return np.dtype(imdtype_dict[self.imdict.ImageData.DataType]).newbyteorder(
+            endian
+        )
 
     @property
     def signal_type(self):
-- 
2.43.0


From 9817ceae3a0b3456c04245a5a331ef12ec6f386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 037/129] fix: digitalmicrograph: lazy reading of packed
 complex data with order='F'

---
 rsciio/digitalmicrograph/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 9a4d34d..0e92b77 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -642,15 +642,17 @@ class ImageObject(object):
                     "If you need to load RGBA images lazily please "
                     "open an issue on the RosettaSciIO GitHub page."
                 )
+            order = self.order
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 shape[-1] = int(shape[-1] / 2 + 1)
+                order = "C"
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
                 shape=tuple(shape),
                 dtype=np.dtype(self.dtype),
                 chunks=chunks,
-                order=self.order,
+                order=order,
             )
         else:
             need_to_close = False
-- 
2.43.0


From 8930ae9aefa418ce92dc7725e9e28131e10a44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 038/129] fix: digitalmicrograph: lazy reading of (old) packed
 complex data

---
 rsciio/digitalmicrograph/_api.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 0e92b77..8b94665 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -643,9 +643,10 @@ class ImageObject(object):
                     "open an issue on the RosettaSciIO GitHub page."
                 )
             order = self.order
-            if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
-                shape[-1] = int(shape[-1] / 2 + 1)
+            if self.imdict.ImageData.DataType in (5, 27, 28):  # Packed complex
                 order = "C"
+            if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
+                shape[-1] = int(shape[-1] / 2 + 1)
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
@@ -670,6 +671,13 @@ class ImageObject(object):
         if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
             return self.unpack_new_packed_complex(data)
         elif self.imdict.ImageData.DataType == 5:  # Old packed compled
+            if lazy:
+                import dask.array as da
+
+                # all the values are needed to unpack them
+                return da.from_array(
+                    self.unpack_packed_complex(data.ravel().compute()), chunks=chunks
+                )
             return self.unpack_packed_complex(data)
         elif self.imdict.ImageData.DataType in (8, 23):  # ABGR
             # Reorder the fields
-- 
2.43.0


From 3414973ced636beb29d31fae877873a908305a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 039/129] fix: msa: write the time of the signal

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..9115a79 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -435,7 +435,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             day, month, year = date_str.split("-")
             month = US_MONTHS_D2A[month]
             loc_kwds["DATE"] = "-".join((day, month, year))
-        if "General.item" in md:
+        if "General.time" in md:
             time = dt.strptime(md.General.time, "%H:%M:%S")
             loc_kwds["TIME"] = time.strftime("%H:%M")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
-- 
2.43.0


From b0dc44043316a2e9cf35f683da3e1cc98d99374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 040/129] fix: msa: don't modify the original metadata of the
 signal when saving

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 9115a79..f8933e8 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -420,7 +420,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = signal["original_metadata"].copy()
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
-- 
2.43.0


From f2ff482222f6cea610efb6168f2342b72e18ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 041/129] fix: msa: saving SEM signals changed how later files
 are read and written

---
 rsciio/msa/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index f8933e8..266a8eb 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -508,10 +508,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
 
     for key, dic in keywords.items():
         if dic["mapped_to"] is not None:
+            mapped_to = dic["mapped_to"]
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = eval("md.%s" % mapped_to)
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From 3db7d5a057e0fd30c8f1b86ee81b190359193d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 042/129] fix: ripple: undefined units were written as "None"

---
 rsciio/ripple/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..35351ec 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -588,7 +588,8 @@ def file_writer(filename, signal, encoding="latin-1"):
         if eval(key) > 1:
             keys_dictionary[f"{key}-scale"] = eval(f"{key}_axis['scale']")
             keys_dictionary[f"{key}-origin"] = eval(f"{key}_axis['offset']")
-            keys_dictionary[f"{key}-units"] = eval(f"{key}_axis['units']")
+            units = eval(f"{key}_axis['units']")
+            keys_dictionary[f"{key}-units"] = "<undefined>" if units is None else units
             keys_dictionary[f"{key}-name"] = eval(f"{key}_axis['name']")
     if signal_type == "EELS":
         mp = md.get("Acquisition_instrument.TEM")
-- 
2.43.0


From f99996566d9639b9164270a3acbad74d705d8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 043/129] fix: blockfile: don't modify the axes of the signal
 when saving

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..a1b2877 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,7 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    axes = [axis.copy() for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0


From 584953d78008b01974203288d4266455f56710bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 044/129] fix: blockfile: size of the virtual bright field with
 less than two navigation dimensions

---
 rsciio/blockfile/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index a1b2877..84dadc1 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -444,7 +444,7 @@ def file_writer(
         np.zeros((zero_pad,), np.byte).tofile(f)
         # Write virtual bright field
         if navigator is None:
-            navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
+            navigator = np.zeros(signal["data"].shape[:-2])
         elif isinstance(navigator, str) and (navigator == "navigator"):
             if smetadata.get("_HyperSpy._sig_navigator", False):
                 navigator = smetadata["_HyperSpy._sig_navigator.data"]
@@ -453,7 +453,7 @@ def file_writer(
         elif hasattr(navigator, "shape"):
             # Is numpy array-like
             # check that the shape is ok
-            if navigator.shape != signal["data"].shape[:2]:
+            if navigator.shape != signal["data"].shape[:-2]:
                 raise ValueError(
                     "Size of the provided `navigator` does not match the "
                     "navigation dimensions of the dataset."
-- 
2.43.0


From 408d6332898585c415e7d2353e4c0ab99db28055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 045/129] fix: blockfile: axes of files with dimensions of
 length one

---
 rsciio/blockfile/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 84dadc1..26f645a 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -327,19 +327,20 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         },
         "Signal": {"signal_type": "diffraction"},
     }
-    # Create the axis objects for each axis
-    dim = data.ndim
+    # Create the axis objects for each axis, dimensions of length 1 are squeezed
+    data = data.squeeze()
+    dims = [i for i, n in enumerate(navigation_shape + signal_shape) if n != 1]
     axes = [
         {
-            "size": data.shape[i],
-            "index_in_array": i,
+            "size": data.shape[index],
+            "index_in_array": index,
             "name": names[i],
             "scale": scales[i],
             "offset": 0.0,
             "units": units[i],
             "navigate": navigate[i],
         }
-        for i in range(dim)
+        for index, i in enumerate(dims)
     ]
 
     dictionary = {
-- 
2.43.0


From 9ae807381abf3f6a944292813219f384f332b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 046/129] fix: tvips: pixel size was taken from the first axis,
 whatever it is

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..29d18fb 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -113,7 +113,7 @@ def _get_main_header_from_signal(signal, version=2, frame_header_extra_bytes=0):
     # original pixel scale
     mode = _guess_image_mode(signal)
     axes = signal["axes"]
-    scale = axes[0]["scale"]
+    scale = axes[-1]["scale"]
     offsetx = axes[-1]["offset"]
     offsety = axes[-2]["offset"]
     unit = axes[-2]["units"]
-- 
2.43.0


From b2a20062b1c3bb692aef61c6acbdb24a5b98cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 047/129] fix: tvips: saving a single image

---
 rsciio/tvips/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 29d18fb..ef5e77f 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -545,7 +545,7 @@ def file_writer(
     metadata = DTBox(signal["metadata"], box_dots=True)
     signal_dim = len([axis for axis in axes if not axis["navigate"]])
     nav_shape = [axis["size"] for axis in axes if axis["navigate"]]
-    num_frames = np.prod(nav_shape) if nav_shape else 0
+    num_frames = int(np.prod(nav_shape))
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
     fnb, ext = os.path.splitext(filename)
@@ -575,7 +575,8 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
-    if num_frames:
+    time_increment = 1
+    if nav_shape:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
         try:
@@ -595,12 +596,11 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
+    frames_to_save = num_frames
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From 24b6d9009cd2f6b845ae5945f1bfc3db2efb40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 048/129] fix: tvips: reading a file with a single frame

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index ef5e77f..6ff66f9 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
-- 
2.43.0


From da29f7f26475952bf040a7baa52cc917a2fde301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 049/129] fix: tvips: axes of data read with a one-dimensional
 scan shape

---
 rsciio/tvips/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 6ff66f9..8ffd3a2 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -402,13 +402,14 @@ def file_reader(
         with dask.config.set(**{"array.slicing.split_large_chunks": True}):
             data_stack = data_stack[indices.ravel()]
         data_stack = data_stack.reshape(*indices.shape, dimy, dimx)
-        units = (indices.ndim - 2) * [""] + ["nm", "nm", DPU, DPU]
-        names = (indices.ndim - 2) * [""] + ["y", "x", "dy", "dx"]
+        dim = data_stack.ndim
+        # only the last dimensions with a single navigation dimension
+        units = ((indices.ndim - 2) * [""] + ["nm", "nm", DPU, DPU])[-dim:]
+        names = ((indices.ndim - 2) * [""] + ["y", "x", "dy", "dx"])[-dim:]
         # no scale information stored in the scan!
-        scales = (indices.ndim - 2) * [1] + [1, 1, SDP, SDP]
-        offsets = (indices.ndim - 2) * [0] + [0, 0, offsety, offsetx]
+        scales = ((indices.ndim - 2) * [1] + [1, 1, SDP, SDP])[-dim:]
+        offsets = ((indices.ndim - 2) * [0] + [0, 0, offsety, offsetx])[-dim:]
         # Create the axis objects for each axis
-        dim = data_stack.ndim
         axes = [
             {
                 "size": data_stack.shape[i],
-- 
2.43.0


From 3714f0774d2b86a98377bd8e744b51fa26c73989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 050/129] fix: tvips: date and time were given in local time,
 but labelled as UTC

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 8ffd3a2..0fe1da6 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -444,7 +444,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From e38712d29557df84f5185625274a2a4f41baa972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 051/129] fix: tvips: write the tilt angles of the stage

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 0fe1da6..7cf151b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -593,8 +593,8 @@ def file_writer(
     stagex = metadata.get("Acquisition_instrument.TEM.Stage.x", 0)
     stagey = metadata.get("Acquisition_instrument.TEM.Stage.y", 0)
     stagez = metadata.get("Acquisition_instrument.TEM.Stage.z", 0)
-    stagea = metadata.get("Acquisition_instrument.TEM.tilt_alpha", 0)
-    stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
+    stagea = metadata.get("Acquisition_instrument.TEM.Stage.tilt_alpha", 0)
+    stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
     frames_to_save = num_frames
-- 
2.43.0


From cfb273d1e22f308901c772615bf035f3bf8d6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 052/129] fix: pantarhei: reading data with a dimension of
 length one and without content type

---
 rsciio/pantarhei/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 80bdf87..64c331c 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -241,7 +241,9 @@ def import_pr(data, meta_data, filename=None):
     trivial_indices = [
         i
         for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        if data.shape[i] == 1
+        and content_type_np_order[i] is not None
+        and "Index" in content_type_np_order[i]
     ]
 
     content_type_np_order = [
-- 
2.43.0


From b321acd34f35b56f73ee7513f27377cc048dd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 053/129] fix: image: don't modify the dictionaries of the
 caller when saving

---
 rsciio/image/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 86ba1cc..7ad250a 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -91,8 +91,7 @@ def file_writer(
     sig_axes = [ax for ax in signal["axes"] if not ax["navigate"]]
     nav_axes = [ax for ax in signal["axes"] if ax["navigate"]]
 
-    if scalebar_kwds is None:
-        scalebar_kwds = dict()
+    scalebar_kwds = dict() if scalebar_kwds is None else dict(scalebar_kwds)
     scalebar_kwds.setdefault("box_alpha", 0.75)
     scalebar_kwds.setdefault("location", "lower left")
 
@@ -123,8 +122,7 @@ def file_writer(
 
         dpi = 100
 
-        if imshow_kwds is None:
-            imshow_kwds = dict()
+        imshow_kwds = dict() if imshow_kwds is None else dict(imshow_kwds)
         imshow_kwds.setdefault("cmap", "gray")
 
         axes = []
-- 
2.43.0


From 2818d90ba9de499cee363af2edb1a9d73bbb926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 054/129] fix: semper: units of the second and third axes

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..90ae6d5 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From 882da9607f56ad8e3457b002ae31c2d8b4ef3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 055/129] fix: semper: saving big-endian integers

---
 rsciio/semper/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 90ae6d5..89f2751 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -336,6 +336,7 @@ class SemperFormat(object):
         if np.issubdtype(data.dtype, np.int8):
             iform = 0  # byte
         elif np.issubdtype(data.dtype, np.int16):
+            data = data.astype(np.int16)
             iform = 1  # int16
         elif np.issubdtype(data.dtype, np.floating) and data.dtype.itemsize <= 4:
             data = data.astype(np.float32)
@@ -344,6 +345,7 @@ class SemperFormat(object):
             data = data.astype(np.complex64)
             iform = 3  # complex (8 byte or less)
         elif np.issubdtype(data.dtype, np.int32):
+            data = data.astype(np.int32)
             iform = 4  # int32
         else:
             supported_formats = [np.dtype(i).name for i in cls.IFORM_DICT.values()]
@@ -483,7 +485,7 @@ class SemperFormat(object):
             # Write picture data:
             for k in range(nlay):
                 for j in range(nrow):
-                    row = self.data[k, j, :]
+                    row = data[k, j, :]
                     # Record length = bytes per entry * ncol:
                     record_length = np.dtype(self.IFORM_DICT[iform]).itemsize * ncol
                     f.write(
-- 
2.43.0


From ac57c521e14eb6f11f885b95aba2e6596bd2ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 056/129] fix: semper: calibration of signals with dimensions
 of length one

---
 rsciio/semper/_api.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 89f2751..37b21f7 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -520,10 +520,12 @@ class SemperFormat(object):
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-        for i in range(len(data.shape)):
-            scales[i] = signal["axes"][i]["scale"]
-            offsets[i] = signal["axes"][i]["offset"]
-            units[i] = signal["axes"][i]["units"]
+        # Dimensions of length 1 are squeezed when reading the file
+        axes = [axis for axis, n in zip(signal["axes"], data.shape) if n != 1]
+        for i, axis in enumerate(axes):
+            scales[i] = axis["scale"]
+            offsets[i] = axis["offset"]
+            units[i] = axis["units"]
         # Make sure data is 3D!
         data = data[tuple(None for _ in range(3 - len(data.shape)))]
         signal_dimension = len(
-- 
2.43.0


From 4ae23d48135c2d7ccce1fbe2498d9dd96f137853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 057/129] fix: image: reading images with a single row or
 column

---
 rsciio/image/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 7ad250a..d2cdff9 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -267,7 +267,12 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
 def _read_data(filename, **kwds):
-    dc = np.squeeze(iio.imread(filename))
+    dc = iio.imread(filename)
+    # Squeeze the data, except the dimensions of the image and of the colors
+    if dc.ndim > 3:
+        dc = dc.squeeze(tuple(i for i in range(dc.ndim - 3) if dc.shape[i] == 1))
+    elif dc.ndim == 3 and dc.shape[-1] not in (3, 4):
+        dc = dc.squeeze()
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-- 
2.43.0


From 40e406f5123046523496b6a649b1ddfab1eb0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 058/129] fix: digitalsurf: undefined units were written as
 "None"

---
 rsciio/digitalsurf/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 6549484..0407587 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1110,11 +1110,11 @@ class DigitalSurfHandler(object):
         self._work_dict["_24_Name_of_X_Axis"]["value"] = self.Xaxis.get("name", "")
         self._work_dict["_25_Name_of_Y_Axis"]["value"] = self.Yaxis.get("name", "")
         self._work_dict["_26_Name_of_Z_Axis"]["value"] = Zname
-        self._work_dict["_27_X_Step_Unit"]["value"] = self.Xaxis.get("units", "")
-        self._work_dict["_28_Y_Step_Unit"]["value"] = self.Yaxis.get("units", "")
+        self._work_dict["_27_X_Step_Unit"]["value"] = self.Xaxis.get("units") or ""
+        self._work_dict["_28_Y_Step_Unit"]["value"] = self.Yaxis.get("units") or ""
         self._work_dict["_29_Z_Step_Unit"]["value"] = Zunit
-        self._work_dict["_30_X_Length_Unit"]["value"] = self.Xaxis.get("units", "")
-        self._work_dict["_31_Y_Length_Unit"]["value"] = self.Yaxis.get("units", "")
+        self._work_dict["_30_X_Length_Unit"]["value"] = self.Xaxis.get("units") or ""
+        self._work_dict["_31_Y_Length_Unit"]["value"] = self.Yaxis.get("units") or ""
         self._work_dict["_32_Z_Length_Unit"]["value"] = Zunit
         self._work_dict["_33_X_Unit_Ratio"]["value"] = 1
         self._work_dict["_34_Y_Unit_Ratio"]["value"] = 1
@@ -1181,7 +1181,7 @@ class DigitalSurfHandler(object):
         self._work_dict["_56_T_Spacing"]["value"] = self.Taxis.get("scale", 0.0)
         self._work_dict["_57_T_Offset"]["value"] = self.Taxis.get("offset", 0.0)
         self._work_dict["_58_T_Axis_Name"]["value"] = self.Taxis.get("name", "")
-        self._work_dict["_59_T_Step_Unit"]["value"] = self.Taxis.get("units", "")
+        self._work_dict["_59_T_Step_Unit"]["value"] = self.Taxis.get("units") or ""
 
         self._work_dict["_60_Comment"]["value"] = comment
 
-- 
2.43.0


From 7b5d81d9d4a5d8f9c756f8834426be063f98411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 059/129] fix: msa: values containing a colon

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 266a8eb..8bbe2e1 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -188,7 +188,7 @@ def parse_msa_string(string, filename=None):
         if data_section is False:
             if line[0] == "#":
                 try:
-                    key, value = line.split(": ")
+                    key, value = line.split(": ", 1)
                     value = value.rstrip()
                 except ValueError:
                     key = line
-- 
2.43.0


From 94601b9beddafc4e97d74f157d072a8540c47760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 060/129] fix: pantarhei: reading single spectra

---
 rsciio/pantarhei/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 64c331c..2dd8213 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -208,7 +208,7 @@ def import_pr(data, meta_data, filename=None):
         elif data_type == "1D" and data_dimensions == 3:
             content_type = [None, "PlotIndex", "Index"]
         elif data_type == "1D":
-            content_type = [None, "PlotIndex"]
+            content_type = [None, "PlotIndex"][:data_dimensions]
         elif data_dimensions >= 3:
             content_type = [
                 None,
-- 
2.43.0


From 2d5e5c43f584712b8bed8045de66f9eb97d6df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 061/129] fix: digitalsurf: constant floating-point images were
 read as integers

---
 rsciio/digitalsurf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 0407587..ca9e181 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2165,7 +2165,9 @@ class DigitalSurfHandler(object):
                 "_23_Z_Spacing"
             ) / self._get_work_dict_key_value("_35_Z_Unit_Ratio")
             offset = self._get_work_dict_key_value("_55_Z_Offset")
-            if float(scale).is_integer() and float(offset).is_integer():
+            Zmin = self._get_work_dict_key_value("_16_Zmin")
+            # The offset is stored in single precision
+            if scale == 1 and offset == np.float32(Zmin):
                 return True
             else:
                 return False
-- 
2.43.0


From d56b0e1034de2e7aff7ff5e0ca54db62c38a7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 062/129] fix: tiff: extratags were ignored with
 export_scale=False

---
 rsciio/tiff/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..e4e19a0 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -122,6 +122,8 @@ def file_writer(filename, signal, export_scale=True, extratags=None, **kwds):
             # metadata if not explicitly requested
             # (https://github.com/cgohlke/tifffile/issues/21)
             kwds["metadata"] = None
+    elif extratags:
+        kwds["extratags"] = extratags
 
     if "General" in metadata.keys() and metadata["General"].get("date"):
         dt = get_date_time_from_metadata(signal["metadata"], formatting="datetime")
-- 
2.43.0


From 7745358f35e818d3d7fba2b5d1831eb942fdac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 063/129] fix: tiff: close the file when it can't be read

---
 rsciio/tiff/_api.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index e4e19a0..c754ffb 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -200,22 +200,26 @@ def file_reader(
     # and the file needs to stay open when loading lazily
     # close the file manually
     tiff = TiffFile(filename, **kwds)
-    if multipage_as_list:
-        handles = tiff.pages  # use full access with pages interface
-    else:
-        handles = tiff.series  # use fast access with series interface
-    dict_list = [
-        _read_tiff(
-            tiff,
-            handle,
-            filename,
-            force_read_resolution,
-            lazy=lazy,
-            hamamatsu_streak_axis_type=hamamatsu_streak_axis_type,
-            **kwds,
-        )
-        for handle in handles
-    ]
+    try:
+        if multipage_as_list:
+            handles = tiff.pages  # use full access with pages interface
+        else:
+            handles = tiff.series  # use fast access with series interface
+        dict_list = [
+            _read_tiff(
+                tiff,
+                handle,
+                filename,
+                force_read_resolution,
+                lazy=lazy,
+                hamamatsu_streak_axis_type=hamamatsu_streak_axis_type,
+                **kwds,
+            )
+            for handle in handles
+        ]
+    except Exception:
+        tiff.close()
+        raise
     if not lazy:
         tiff.close()
 
-- 
2.43.0


From 031d5b332fa9326797dcfa5a9de6979eb9d226f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 064/129] fix: emd: close the file when a lazy read fails

---
 rsciio/emd/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/emd/_api.py b/rsciio/emd/_api.py
index 4ebc9c2..3a011be 100644
--- a/rsciio/emd/_api.py
+++ b/rsciio/emd/_api.py
@@ -212,6 +212,8 @@ def file_reader(
         else:
             raise IOError("The file is not a supported EMD file.")
     except Exception as e:
+        # the file stays open only when something will be read from it later
+        file.close()
         raise e
     finally:
         if not lazy:
-- 
2.43.0


From 36ee8bd81abac937f84a69a46c359ac883ccbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 065/129] fix: tvips: remove the files of a longer series saved
 earlier

They were read as the continuation of the series saved last.
---
 rsciio/tvips/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 7cf151b..132dd49 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -649,6 +649,11 @@ def file_writer(
         file_index += 1
         frames_to_save -= frames_saved
         current_frame += frames_saved
+    # files of a longer series saved earlier under the same name would be
+    # read as the continuation of this one
+    while os.path.isfile(filename := f"{fnb}_{file_index:03d}{ext}"):
+        os.remove(filename)
+        file_index += 1
 
 
 file_writer.__doc__ %= (
-- 
2.43.0


From d88e196d6211544285735ae862cfcaa1ebf84dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 066/129] fix: tvips: round the time of the frames to
 milliseconds

It was cut off, and the fraction of the second of the start lost.
---
 rsciio/tvips/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 132dd49..572789b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -633,9 +633,9 @@ def file_writer(
         file_memmap["stageb"] = stageb
         file_memmap["fcurrent"] = fcurrent
         rotator = np.arange(current_frame, current_frame + frames_saved)
-        milliseconds = rotator * time_increment
-        timestamps = (timestamp + milliseconds / 1000).astype(int)
-        milliseconds = milliseconds % 1000
+        # in whole milliseconds
+        milliseconds = np.rint(timestamp * 1000 + rotator * time_increment)
+        timestamps, milliseconds = np.divmod(milliseconds.astype(np.int64), 1000)
         file_memmap["timestamp"] = timestamps
         file_memmap["ms"] = milliseconds
         file_memmap["rotidx"] = rotator + 1
-- 
2.43.0


From 80d2519e11282d9a4bf9db4670ee686588b1b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 067/129] fix: emd: empty units were read back as '[]'

---
 rsciio/emd/_emd_ncem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..aa5cd92 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -533,7 +533,7 @@ class EMD_NCEM:
                 name = ""
             dim.attrs["name"] = name
             units = axis["units"]
-            if units is None:
+            if not units:
                 units = ""
             else:
                 units = "[{}]".format("_".join(list(units)))
-- 
2.43.0


From 546f3632360b1deb235ebe045da380d21e7719ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 068/129] fix: bruker: pixels longer than a block, and 32 bit
 packed channels

Only one more block was loaded when the data of a pixel didn't fit what was
loaded, so that data outside of the buffer were read (or a segmentation
fault occurred).  The offsets of 32 bit values were those of 16 bit ones.
---
 rsciio/bruker/unbcf_fast.pyx | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 6292b36..d306677 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -87,32 +87,32 @@ cdef class DataStream:
         check if new offset is in bounds of buffer length
         else load up next block"""
         if (self.offset + length) > self.size:
-            self.load_next_block()
+            self.load_next_block(length)
         self.offset = self.offset + length
 
     cdef uint8_t read_8(self):
         if (self.offset + 1) > self.size:
-            self.load_next_block()
+            self.load_next_block(1)
         self.offset += 1
         return <uint8_t>self.buffer2[self.offset-1]
 
     cdef uint16_t read_16(self):
         if (self.offset + 2) > self.size:
-            self.load_next_block()
+            self.load_next_block(2)
         self.offset += 2
         # endianness agnostic way... probably very slow:
         return read_16(&self.buffer2[self.offset-2])
 
     cdef uint32_t read_32(self):
         if (self.offset + 4) > self.size:
-            self.load_next_block()
+            self.load_next_block(4)
         self.offset += 4
         # endianness agnostic way... probably very slow:
         return read_32(&self.buffer2[self.offset-4])
 
     cdef uint64_t read_64(self):
         if (self.offset + 8) > self.size:
-            self.load_next_block()
+            self.load_next_block(8)
         self.offset += 8
         return read_64(&self.buffer2[self.offset-8])
 
@@ -122,18 +122,20 @@ cdef class DataStream:
         counting from the offset, increase the internal offset
         by given length"""
         if (self.offset + length) > self.size:
-            self.load_next_block()
+            self.load_next_block(length)
         self.offset += length
         return &self.buffer2[self.offset-length]
 
-    cdef void load_next_block(self):
+    cdef void load_next_block(self, int length):
         """take the reminder of buffer (offset:end) and
-        append new block of raw data, and overwrite old buffer
-        handle with new, set offset to 0"""
-        self.size = self.size_chnk + self.size - self.offset
+        append new blocks of raw data until it has the required
+        length, and overwrite old buffer handle with new,
+        set offset to 0"""
         self.buffer2 = b''
-        self.raw_bytes = self.raw_bytes[self.offset:] + next(self.blocks)
-        self.offset = 0
+        while (self.offset + length) > self.size:
+            self.size = self.size_chnk + self.size - self.offset
+            self.raw_bytes = self.raw_bytes[self.offset:] + next(self.blocks)
+            self.offset = 0
         self.buffer2 = <bytes>self.raw_bytes
 
 
@@ -257,7 +259,7 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
-                        val32 = read_32(&src[offset + i*2])
+                        val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
                 length = <int>(head.channels * head.size // 2)
             offset += length
-- 
2.43.0


From 86bc4f5c56dc7095bac3b7a296eb2f92c7acde33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 069/129] fix: bruker: parsing of maps without the compiled
 extension

- reading failed when no pulse was in the last channel, and at the end of
  a map that fills its last block
- only one block was loaded for pixels longer than that
- the data type of lazy signals was signed when downsampling
---
 rsciio/bruker/_api.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..8491fde 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -997,6 +997,8 @@ class BCF_reader(SFS_reader):
             value = dask.delayed(parse_func)(
                 vrt_file_hand, shape, dtype, downsample=downsample
             )
+            # py_parse_hypermap always returns unsigned integers
+            dtype = np.dtype(dtype).str.replace("i", "u")
             result = da.from_delayed(value, shape=shape, dtype=dtype)
         else:
             result = parse_func(vrt_file_hand, shape, dtype, downsample=downsample)
@@ -1115,14 +1117,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
     offset = 0x1A0
     size = size_chnk
     for line_cnt in range(height):
-        if (offset + 4) >= size:
+        while (offset + 4) > size:
             size = size_chnk + size - offset
             buffer1 = buffer1[offset:] + next(iter_data)
             offset = 0
         line_head = strct_unp("<i", buffer1[offset : offset + 4])[0]
         offset += 4
         for dummy1 in range(line_head):
-            if (offset + 22) >= size:
+            while (offset + 22) > size:
                 size = size_chnk + size - offset
                 buffer1 = buffer1[offset:] + next(iter_data)
                 offset = 0
@@ -1153,14 +1155,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) >= size:
+            while (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
             if flag == 0:
                 data1 = buffer1[offset : offset + data_size2]
                 arr16 = np.frombuffer(data1, dtype=np.uint16)
-                pixel = np.bincount(arr16, minlength=chan1 - 1)
+                pixel = np.bincount(arr16, minlength=chan1)
                 offset += data_size2
             elif flag == 1:  # and (chan1 != chan2)
                 # Unpack packed 12-bit data to 16-bit uints:
@@ -1181,7 +1183,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ).copy()
                 exp16[0::2] >>= 4  # Shift every second short by 4
                 exp16 &= np.uint16(0x0FFF)  # Mask all shorts to 12bit
-                pixel = np.bincount(exp16, minlength=chan1 - 1)
+                pixel = np.bincount(exp16, minlength=chan1)
                 offset += data_size2
             else:  # flag > 1
                 # Unpack instructively packed data to pixel channels:
@@ -1228,7 +1230,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) >= size:
+                    while (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
-- 
2.43.0


From 19cf5261470dbed0e38b37f7f9ae89c11b0c8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 070/129] fix: bruker: real time of maps of two lines

Their line counter was taken for a number with a decimal comma.
---
 rsciio/bruker/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 8491fde..7e32c30 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -570,7 +570,11 @@ class HyperHeader:
         self._set_images(root)
         self.elements = {}
         self._set_elements(root)
-        self.line_counter = literal_eval(root.find("./LineCounter").text)
+        # a counter of two lines looks like a number with a decimal comma, which
+        # `sanitize_msxml_float` replaces
+        self.line_counter = literal_eval(
+            root.find("./LineCounter").text.replace(".", ",")
+        )
         self.channel_count = int(root.find("./ChCount").text)
         self.mapping_count = int(root.find("./DetectorCount").text)
         # self.channel_factors = {}
-- 
2.43.0


From e8157ea5bf274e07bfe2234c488c160d0add2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 071/129] fix: bruker: the scale of the width of maps was that
 of the height

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 7e32c30..a7c3e7c 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1476,7 +1476,7 @@ For more information, check the 'Installing RosettaSciIO' section in the documen
                         "name": "width",
                         "size": hypermap.shape[1],
                         "offset": 0,
-                        "scale": obj_bcf.header.y_res * downsample,
+                        "scale": obj_bcf.header.x_res * downsample,
                         "units": obj_bcf.header.units,
                         "navigate": True,
                     },
-- 
2.43.0


From d61cfd66ae115b3ea468e87bcf315c0fd1af9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 072/129] fix: mrc: close the file when its header has been
 read

---
 rsciio/mrc/_api.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..ae3a31b 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -574,17 +574,18 @@ def file_reader(
 
             metadata["_HyperSpy"]["navigators"][name] = signal
 
-    f = open(filename, "rb")
-    std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
-    fei_header = None
-    if std_header["NEXT"] / 1024 == 128:
-        _logger.info(f"{filename} seems to contain an extended FEI header")
-        fei_header = np.fromfile(f, dtype=get_fei_dtype_list(endianness), count=1024)
-    if f.tell() == 1024 + std_header["NEXT"]:
-        _logger.debug("The FEI header was correctly loaded")
-    else:
-        f.seek(1024 + std_header["NEXT"][0])
+    with open(filename, "rb") as f:
+        std_header = np.fromfile(f, dtype=get_std_dtype_list(endianness), count=1)
         fei_header = None
+        if std_header["NEXT"] / 1024 == 128:
+            _logger.info(f"{filename} seems to contain an extended FEI header")
+            fei_header = np.fromfile(f, dtype=get_fei_dtype_list(endianness), count=1024)
+        if f.tell() == 1024 + std_header["NEXT"]:
+            _logger.debug("The FEI header was correctly loaded")
+        else:
+            f.seek(1024 + std_header["NEXT"][0])
+            fei_header = None
+        data_offset = f.tell()
     NX, NY, NZ = std_header["NX"], std_header["NY"], std_header["NZ"]
     shape = (NX[0], NY[0], NZ[0])
     if navigation_shape is not None:
@@ -592,7 +593,7 @@ def file_reader(
 
     data = file.memmap_distributed(
         filename,
-        offset=f.tell(),
+        offset=data_offset,
         shape=shape[::-1],
         dtype=get_data_type(std_header["MODE"]),
         positions=positions,
-- 
2.43.0


From bfda11f6b8ef0dfb2fb7fc38926cab31a26ba78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 073/129] fix: blockfile: close the file when its header has
 been read

---
 rsciio/blockfile/_api.py | 54 +++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 26f645a..4ae2dd6 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -230,31 +230,31 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
 
     _logger.debug("Reading blockfile: %s" % filename)
     metadata = {}
-    f = open(filename, "rb")
-    _logger.debug("File opened")
-
-    # Get header
-    header = np.fromfile(f, dtype=get_header_dtype_list(endianness), count=1)
-    if header["MAGIC"][0] not in magics:
-        warnings.warn(
-            "Blockfile has unrecognized header signature. "
-            "Will attempt to read, but correctness not guaranteed!",
-            UserWarning,
-        )
-    header = sarray2dict(header)
-    # Convert the header value to python int to avoid potential overflow issues on 32-bit systems
-    note = f.read(int(header["Data_offset_1"]) - f.tell())
-    # It seems it uses "\x00" for padding, so we remove it
-    try:
-        header["Note"] = note.decode("latin1").strip("\x00")
-    except Exception:
-        # Not sure about the encoding so, if it fails, we carry on
-        _logger.warning(
-            "Reading the Note metadata of this file failed. "
-            "You can help improving "
-            "HyperSpy by reporting the issue in "
-            "https://github.com/hyperspy/hyperspy"
-        )
+    with open(filename, "rb") as f:
+        _logger.debug("File opened")
+
+        # Get header
+        header = np.fromfile(f, dtype=get_header_dtype_list(endianness), count=1)
+        if header["MAGIC"][0] not in magics:
+            warnings.warn(
+                "Blockfile has unrecognized header signature. "
+                "Will attempt to read, but correctness not guaranteed!",
+                UserWarning,
+            )
+        header = sarray2dict(header)
+        # Convert the header value to python int to avoid potential overflow issues on 32-bit systems
+        note = f.read(int(header["Data_offset_1"]) - f.tell())
+        # It seems it uses "\x00" for padding, so we remove it
+        try:
+            header["Note"] = note.decode("latin1").strip("\x00")
+        except Exception:
+            # Not sure about the encoding so, if it fails, we carry on
+            _logger.warning(
+                "Reading the Note metadata of this file failed. "
+                "You can help improving "
+                "HyperSpy by reporting the issue in "
+                "https://github.com/hyperspy/hyperspy"
+            )
     _logger.debug("File header: " + str(header))
     navigation_shape = (int(header["NY"]), int(header["NX"]))
     signal_shape = (int(header["DP_SZ"]),) * 2
@@ -283,8 +283,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
                 ("data", np.dtype(endianness + "u1"), np.prod(signal_shape)),
             ]
         )
-        f.seek(offset2)
-        data = np.fromfile(f, dtype=frame_dtype)["data"]
+        data = np.fromfile(filename, dtype=frame_dtype, offset=offset2)["data"]
         try:
             data = data.reshape(navigation_shape + signal_shape).squeeze()
         except ValueError:
@@ -351,7 +350,6 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         "mapping": mapping,
     }
 
-    f.close()
     return [
         dictionary,
     ]
-- 
2.43.0


From 8474c5b997f3ecd295c0e04a5f3e531663e96d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 074/129] fix: pantarhei: close the file when reading it fails

---
 rsciio/pantarhei/_api.py | 109 +++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 55 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 2dd8213..cf4b695 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -82,66 +82,65 @@ def file_reader(
 
     # Load metadata
     # this is lazy, only the ZipFile meta data gets loaded as of yet!
-    prz_file = np.load(filename, allow_pickle=False)
-    if "meta_data_json" in prz_file:
-        meta_data = json.loads(prz_file["meta_data_json"][()])[0]
-    elif allow_restricted_pickle:
-        _logger.warning(
-            "You are unpickling a prz file, this poses a security risk! "
-            "Only load prz files you completely trust."
-        )
-        # uses `RestrictedUnpickler`
-        meta_data = read_pickled_array(prz_file.zip.open("meta_data.npy"))[0]
-    else:
-        _logger.warning(
-            """With `allow_restricted_pickle=False` no meta data can be loaded
+    with np.load(filename, allow_pickle=False) as prz_file:
+        if "meta_data_json" in prz_file:
+            meta_data = json.loads(prz_file["meta_data_json"][()])[0]
+        elif allow_restricted_pickle:
+            _logger.warning(
+                "You are unpickling a prz file, this poses a security risk! "
+                "Only load prz files you completely trust."
+            )
+            # uses `RestrictedUnpickler`
+            meta_data = read_pickled_array(prz_file.zip.open("meta_data.npy"))[0]
+        else:
+            _logger.warning(
+                """With `allow_restricted_pickle=False` no meta data can be loaded
             from a prz file. Note however, that `allow_restricted_pickle=True`
             poses a security risk, and should only be used for completely
             trusted files! As a fallback also consider exporting to hyperspy
             format (.hspy) directly from Panta Rhei."""
-        )
-        meta_data = {}
-
-    if lazy:
-        # Extract offset, shape, and dtype from the data.npy within the .prz archive
-        with zipfile.ZipFile(filename, "r") as zf:
-            # Get info about the 'data.npy' file within the archive
-            data_info = zf.getinfo("data.npy")
-            # Open the data.npy file within the archive
-            with zf.open("data.npy") as f:
-                offset_in_npy, header = _read_npy_header(f)
-
-    if lazy and data_info.compress_type != zipfile.ZIP_STORED:
-        # Compressed data can't be memory mapped
-        import dask.array as da
-
-        data = da.from_array(prz_file["data"], chunks=chunks)
-    elif lazy:
-        with open(filename, "rb") as f:
-            # data_info.header_offset points to the local file header
-            f.seek(data_info.header_offset)
-            # Read local file header (30 bytes minimum)
-            local_header = f.read(30)
-            # Extract filename length and extra field length (bytes 26-30)
-            filename_len, extra_len = struct.unpack("<HH", local_header[26:30])
-            # The actual file data starts after: header (30) + filename + extra + npy_header
-            zip_data_offset = data_info.header_offset + 30 + filename_len + extra_len
-            # Add the offset within the .npy file itself
-            offset = zip_data_offset + offset_in_npy
-
-        data = memmap_distributed(
-            filename,
-            offset=offset,
-            shape=header["shape"],
-            dtype=np.dtype(header["descr"]),
-            order="F" if header["fortran_order"] else "C",
-            chunks=chunks,
-            **kwargs,
-        )
-    else:
-        data = prz_file["data"]
+            )
+            meta_data = {}
+
+        if lazy:
+            # Extract offset, shape, and dtype from the data.npy within the .prz archive
+            with zipfile.ZipFile(filename, "r") as zf:
+                # Get info about the 'data.npy' file within the archive
+                data_info = zf.getinfo("data.npy")
+                # Open the data.npy file within the archive
+                with zf.open("data.npy") as f:
+                    offset_in_npy, header = _read_npy_header(f)
+
+        if lazy and data_info.compress_type != zipfile.ZIP_STORED:
+            # Compressed data can't be memory mapped
+            import dask.array as da
+
+            data = da.from_array(prz_file["data"], chunks=chunks)
+        elif lazy:
+            with open(filename, "rb") as f:
+                # data_info.header_offset points to the local file header
+                f.seek(data_info.header_offset)
+                # Read local file header (30 bytes minimum)
+                local_header = f.read(30)
+                # Extract filename length and extra field length (bytes 26-30)
+                filename_len, extra_len = struct.unpack("<HH", local_header[26:30])
+                # The actual file data starts after: header (30) + filename + extra + npy_header
+                zip_data_offset = data_info.header_offset + 30 + filename_len + extra_len
+                # Add the offset within the .npy file itself
+                offset = zip_data_offset + offset_in_npy
+
+            data = memmap_distributed(
+                filename,
+                offset=offset,
+                shape=header["shape"],
+                dtype=np.dtype(header["descr"]),
+                order="F" if header["fortran_order"] else "C",
+                chunks=chunks,
+                **kwargs,
+            )
+        else:
+            data = prz_file["data"]
 
-    prz_file.close()
     return import_pr(data, meta_data, filename)
 
 
-- 
2.43.0


From 1219c9e27a8ab36bcfc9a7174b7ef5dec8700cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 075/129] fix: nexus: close the file when reading it fails

---
 rsciio/nexus/_api.py | 45 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..c3c00c8 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -513,13 +513,53 @@ def file_reader(
 
     Datasets are all arrays with size>2 (arrays, lists)
     """
+    fin = h5py.File(filename, "r")
+    try:
+        signal_dict_list = _read_signals(
+            fin,
+            filename,
+            lazy=lazy,
+            dataset_key=dataset_key,
+            dataset_path=dataset_path,
+            metadata_key=metadata_key,
+            skip_array_metadata=skip_array_metadata,
+            nxdata_only=nxdata_only,
+            hardlinks_only=hardlinks_only,
+            use_default=use_default,
+            mapping=mapping,
+        )
+    except Exception:
+        fin.close()
+        raise
+    if not lazy:
+        fin.close()
+
+    return signal_dict_list
+
+
+file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
+
+
+def _read_signals(
+    fin,
+    filename,
+    lazy,
+    dataset_key,
+    dataset_path,
+    metadata_key,
+    skip_array_metadata,
+    nxdata_only,
+    hardlinks_only,
+    use_default,
+    mapping,
+):
+    """Read the signals of the opened file ``fin``, see :func:`file_reader`."""
     # search for NXdata sets...
 
     if mapping is None:
         mapping = {}
     original_metadata = {}
     learning = {}
-    fin = h5py.File(filename, "r")
     signal_dict_list = []
 
     dataset_key = _check_search_keys(dataset_key)
@@ -639,9 +679,6 @@ def file_reader(
     return signal_dict_list
 
 
-file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
-
-
 def _is_linear_axis(data):
     """Check if the data is linearly incrementing.
 
-- 
2.43.0


From 1182f9267a920e287a4f19a2f90c7a3b72155848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 076/129] fix: jeol: close the eds file when reading it fails

---
 rsciio/jeol/_api.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 7e5c7d1..6bb0915 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1235,22 +1235,9 @@ def _skip_frame(rawdata):  # pragma: no cover
     return count
 
 
-def _read_eds(filename, **kwargs):
-    """
-    Parameters
-    ----------
-    filename : str
-        path of .eds file
-
-    Returns
-    -------
-    image_list : list of 1D signal (dict)
-        list of dictionaries used to create the signals
-        Always len(image_list) == 1
-        None on read error
-    """
+def _parse_eds(fd):
+    """Read the header, the counts and the footer of the opened file."""
     header = {}
-    fd = open(filename, "br")
     # file_magic
     _ = np.fromfile(fd, "<I", 1)[0]
     np.fromfile(fd, "<b", 6)
@@ -1434,6 +1421,26 @@ def _read_eds(filename, **kwargs):
             "SiThic": np.fromfile(fd, "d", 1)[0],
         }
 
+    return header, data, footer
+
+
+def _read_eds(filename, **kwargs):
+    """
+    Parameters
+    ----------
+    filename : str
+        path of .eds file
+
+    Returns
+    -------
+    image_list : list of 1D signal (dict)
+        list of dictionaries used to create the signals
+        Always len(image_list) == 1
+        None on read error
+    """
+    with open(filename, "br") as fd:
+        header, data, footer = _parse_eds(fd)
+
     hv = footer["Parameters"]["AccKV"]
     if hv <= 30.0:
         mode = "SEM"
-- 
2.43.0


From 0d829897c1539575f17a622b2186f3ac5fea75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 077/129] fix: hdf5: close the file when listing its content
 fails

---
 rsciio/utils/hdf5.py | 58 +++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/rsciio/utils/hdf5.py b/rsciio/utils/hdf5.py
index 6f3bd0e..3c9fc7b 100644
--- a/rsciio/utils/hdf5.py
+++ b/rsciio/utils/hdf5.py
@@ -80,19 +80,18 @@ def read_metadata_from_file(
         datasets present in a file.
     """
     search_keys = _check_search_keys(metadata_key)
-    fin = h5py.File(filename, "r")
-    # search for NXdata sets...
-    # strip out the metadata (basically everything other than NXdata)
-    stripped_metadata = _load_metadata(
-        fin, lazy=lazy, skip_array_metadata=skip_array_metadata
-    )
-    stripped_metadata = _find_search_keys_in_dict(
-        stripped_metadata, search_keys=search_keys
-    )
+    with h5py.File(filename, "r") as fin:
+        # search for NXdata sets...
+        # strip out the metadata (basically everything other than NXdata)
+        stripped_metadata = _load_metadata(
+            fin, lazy=lazy, skip_array_metadata=skip_array_metadata
+        )
+        stripped_metadata = _find_search_keys_in_dict(
+            stripped_metadata, search_keys=search_keys
+        )
     if verbose:
         pprint.pprint(stripped_metadata)  # noqa: T203
 
-    fin.close()
     return stripped_metadata
 
 
@@ -136,26 +135,25 @@ def list_datasets_in_file(
         metadata present in a file.
     """
     search_keys = _check_search_keys(dataset_key)
-    fin = h5py.File(filename, "r")
-    # search for NXdata sets...
-    # strip out the metadata (basically everything other than NXdata)
-    nexus_data_paths, hdf_dataset_paths = _find_data(
-        fin, search_keys=search_keys, hardlinks_only=hardlinks_only
-    )
-    if verbose:
-        if nexus_data_paths:
-            print("NXdata found")  # noqa: T201
-            for nxd in nexus_data_paths:
-                print(nxd)  # noqa: T201
-        else:
-            print("NXdata not found")  # noqa: T201
-        if hdf_dataset_paths:
-            print("Unique HDF datasets found")  # noqa: T201
-            for hdfd in hdf_dataset_paths:
-                print(hdfd, fin[hdfd].shape)  # noqa: T201
-        else:
-            print("No HDF datasets found or data is captured by NXdata")  # noqa: T201
-    fin.close()
+    with h5py.File(filename, "r") as fin:
+        # search for NXdata sets...
+        # strip out the metadata (basically everything other than NXdata)
+        nexus_data_paths, hdf_dataset_paths = _find_data(
+            fin, search_keys=search_keys, hardlinks_only=hardlinks_only
+        )
+        if verbose:
+            if nexus_data_paths:
+                print("NXdata found")  # noqa: T201
+                for nxd in nexus_data_paths:
+                    print(nxd)  # noqa: T201
+            else:
+                print("NXdata not found")  # noqa: T201
+            if hdf_dataset_paths:
+                print("Unique HDF datasets found")  # noqa: T201
+                for hdfd in hdf_dataset_paths:
+                    print(hdfd, fin[hdfd].shape)  # noqa: T201
+            else:
+                print("No HDF datasets found or data is captured by NXdata")  # noqa: T201
     return nexus_data_paths, hdf_dataset_paths
 
 
-- 
2.43.0


From fe0dcb269bdeaa3bc4fa16ea62e80be61a6cb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 078/129] fix: image: close the file when its exif tags have
 been read

---
 rsciio/image/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index d2cdff9..620d486 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -246,8 +246,8 @@ def file_reader(filename, lazy=False, **kwds):
 
     om = {}
 
-    im = Image.open(filename)
-    om["exif_tags"] = _parse_exif_tags(im)
+    with Image.open(filename) as im:
+        om["exif_tags"] = _parse_exif_tags(im)
     axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape)
 
     return [
-- 
2.43.0


From f8599c68ffaf08f00db964ea9c1fcb12119637a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 079/129] fix: semper: close the file when reading it lazily

---
 rsciio/semper/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 37b21f7..8005f90 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -662,7 +662,8 @@ def pack_to_intbytes(fmt, value):
 
 def _read_data(fobj, fname, position, data_format, shape):
     if fobj.closed:
-        fobj = open(fname, "rb")
+        with open(fname, "rb") as fobj:
+            return _read_data(fobj, fname, position, data_format, shape)
     fobj.seek(position)
     nlay, nrow, ncol = shape
     data = np.empty(shape, dtype=data_format)
-- 
2.43.0


From 5d43e5065b7639252eb233dafc2c49934c3ef4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 080/129] fix: emd: close the file when writing it fails

---
 rsciio/emd/_emd_ncem.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index aa5cd92..178d0ae 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -472,25 +472,27 @@ class EMD_NCEM:
             emd_file = h5py.File(file, "w")
         else:
             emd_file = file
-        # Write version:
-        ver_maj, ver_min = EMD_VERSION.split(".")
-        emd_file.attrs["version_major"] = ver_maj
-        emd_file.attrs["version_minor"] = ver_min
-
-        # Write attribute from the original_metadata
-        om = DTBox(signal["original_metadata"], box_dots=True)
-        for group_name in ["microscope", "sample", "user", "comments"]:
-            group = emd_file.require_group(group_name)
-            d = om.get(group_name, None)
-            if d is not None:
-                for key, value in d.items():
-                    group.attrs[key] = value
-
-        # Write signals:
-        signal_group = emd_file.require_group("signals")
-        signal_group.attrs["emd_group_type"] = 1
-        self._write_signal_to_group(signal_group, signal, **kwargs)
-        emd_file.close()
+        try:
+            # Write version:
+            ver_maj, ver_min = EMD_VERSION.split(".")
+            emd_file.attrs["version_major"] = ver_maj
+            emd_file.attrs["version_minor"] = ver_min
+
+            # Write attribute from the original_metadata
+            om = DTBox(signal["original_metadata"], box_dots=True)
+            for group_name in ["microscope", "sample", "user", "comments"]:
+                group = emd_file.require_group(group_name)
+                d = om.get(group_name, None)
+                if d is not None:
+                    for key, value in d.items():
+                        group.attrs[key] = value
+
+            # Write signals:
+            signal_group = emd_file.require_group("signals")
+            signal_group.attrs["emd_group_type"] = 1
+            self._write_signal_to_group(signal_group, signal, **kwargs)
+        finally:
+            emd_file.close()
 
     def _write_signal_to_group(self, signal_group, signal, chunks=None, **kwargs):
         # Save data:
-- 
2.43.0


From 4f104c384c54c43f7997b243a83ae339be52f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 081/129] fix: tofwerk: close the file when reading it fails

---
 rsciio/tofwerk/_api.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..f044559 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -882,7 +882,37 @@ def file_reader(
 
     filename = str(filename)
     f = h5py.File(filename, "r")
-
+    try:
+        return _read_signals(
+            f,
+            filename,
+            lazy,
+            signal,
+            chunks,
+            mz_range,
+            depth_range,
+            dtype,
+            show_progressbar,
+            peak_data_batch_size,
+        )
+    except Exception:
+        f.close()
+        raise
+
+
+def _read_signals(
+    f,
+    filename,
+    lazy,
+    signal,
+    chunks,
+    mz_range,
+    depth_range,
+    dtype,
+    show_progressbar,
+    peak_data_batch_size,
+):
+    """Read the signals of the opened file ``f``, see :func:`file_reader`."""
     if not _is_tofwerk_file(f):
         f.close()
         raise IOError(
-- 
2.43.0


From 01d7335f61274a9069f8bf97cdddb58a5c8ec5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 082/129] fix: pantarhei: close the metadata of the archive

---
 rsciio/pantarhei/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index cf4b695..b986c17 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -91,7 +91,8 @@ def file_reader(
                 "Only load prz files you completely trust."
             )
             # uses `RestrictedUnpickler`
-            meta_data = read_pickled_array(prz_file.zip.open("meta_data.npy"))[0]
+            with prz_file.zip.open("meta_data.npy") as f:
+                meta_data = read_pickled_array(f)[0]
         else:
             _logger.warning(
                 """With `allow_restricted_pickle=False` no meta data can be loaded
-- 
2.43.0


From a3d6849bcde4b3ad26b994a930f5d335abe69801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 083/129] fix: TVIPS: scan_shape='auto' with frames recorded
 after the scan

The rotator indices are unsigned, so that the difference from the last
index to the zeros following it was a large positive number: the end of the
scan was found after it, and the scan was read as empty or refused.
---
 rsciio/tvips/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 572789b..36f5e4d 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -188,7 +188,8 @@ def _is_valid_first_tvips_file(filename):
 
 def _find_auto_scan_start_stop(rotidxs):
     """Find the start and stop index in a rotator index array"""
-    diff = rotidxs[1:] - rotidxs[:-1]
+    # the difference of unsigned integers is never negative
+    diff = np.diff(rotidxs.astype(np.int64))
     index = np.where(diff > 0)[0]
     if index.size == 0:
         return None, None
-- 
2.43.0


From f4713882d15b73fccc107750d35f42dbc17468b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 084/129] fix: XmlToDict: any text that is not a literal is a
 string

literal_eval may also raise TypeError (e.g. '{[]}'), MemoryError or
RecursionError, which made reading the file fail.
---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index a0eff22..3805383 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -220,7 +220,7 @@ class XmlToDict:
         """
         try:
             return literal_eval(string)
-        except (ValueError, SyntaxError):
+        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
             # SyntaxError due to:
             # literal_eval have problems with strings like this '8842_80'
             return string
-- 
2.43.0


From b18abf9d8aa1f63cca5c8afb8d1857fbd27149ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 085/129] fix: XmlToDict: identifiers like 8842_80 are not
 numbers

Since python 3.6 literal_eval takes underscores between digits for a
grouping of digits, so that such identifiers became integers without them,
and the text '...' became Ellipsis.
---
 rsciio/utils/xml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 3805383..7e38ad1 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -219,11 +219,13 @@ class XmlToDict:
                         return XmlToDict.eval(string)
         """
         try:
-            return literal_eval(string)
+            value = literal_eval(string)
         except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
-            # SyntaxError due to:
-            # literal_eval have problems with strings like this '8842_80'
             return string
+        if value is ... or (isinstance(value, (int, float, complex)) and "_" in string):
+            # strings like '...' or '8842_80', which are python literals
+            return string
+        return value
 
     def dictionarize(self, et_node, ignore_children=False):
         """
-- 
2.43.0


From 3a4f11831da0f3cd9d862ae27633bf980c1b33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 086/129] fix: XmlToDict: evaluate texts once

The text of an only child was evaluated twice, so that a quoted string like
'5' became a number there, but not in lists or attributes.
---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 7e38ad1..00940da 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -255,7 +255,7 @@ class XmlToDict:
                     dd_node[key].append(val)
             d_node = {
                 et_node.tag: {
-                    key: self.eval(val[0]) if len(val) == 1 else val
+                    key: val[0] if len(val) == 1 else val
                     for key, val in dd_node.items()
                 }
             }
-- 
2.43.0


From 6c38cd45950ddc628718f0ea8f15eeb66ddaf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 087/129] fix: XmlToDict: flattened nodes without attributes
 and children

They are not dictionaries, so that the conversion of their parent raised
AttributeError.
---
 rsciio/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 00940da..3931d64 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -251,6 +251,9 @@ class XmlToDict:
         if children:
             dd_node = defaultdict(list)
             for dc_node in map(self.dictionarize, children):
+                if not isinstance(dc_node, dict):
+                    # flattened node without attributes and children
+                    dc_node = {} if dc_node is None else {self.dub_text_str: dc_node}
                 for key, val in dc_node.items():
                     dd_node[key].append(val)
             d_node = {
-- 
2.43.0


From 3f0081f169c0cbf147dfb1e1a863eb2d2e9d4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 088/129] fix: xml2dtb: indented files

The line break and the spaces before the first child were taken for the
text of a node, whose children and attributes were then left out.
---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 3931d64..afa7089 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -310,7 +310,7 @@ def xml2dtb(et, dictree):
         Box object to be populated.
 
     """
-    if et.text:
+    if et.text and et.text.strip():
         dictree.set_item(et.tag, et.text)
         return
     else:
-- 
2.43.0


From fe269abbb496e786b2f0b0cccd92b28d69960131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 089/129] fix: sanitize_msxml_float: exponents with a plus sign

Numbers such as 1,5E+05 kept their decimal comma.
---
 rsciio/utils/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index afa7089..feaade8 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -40,10 +40,10 @@ def __dir__():
 # re pattern with two capturing groups with comma in between;
 # firstgroup looks for numeric value after <tag> (the '>' char) with or
 # without minus sign, second group looks for numeric value with following
-# closing <\tag> (the '<' char); '([Ee]-?\d*)' part (optionally a third group)
-# checks for scientific notation (e.g. 8,843E-7 -> 'E-7');
+# closing <\tag> (the '<' char); '([Ee][-+]?\d*)' part (optionally a third group)
+# checks for scientific notation (e.g. 8,843E-7 -> 'E-7', or 'E+5');
 # compiled pattern is binary, as raw xml string is binary string.:
-_fix_dec_patterns = re.compile(b"(>-?\\d+),(\\d*([Ee]-?\\d*)?<)")
+_fix_dec_patterns = re.compile(b"(>-?\\d+),(\\d*([Ee][-+]?\\d*)?<)")
 
 
 def sanitize_msxml_float(xml_b_string):
-- 
2.43.0


From 413809071697f8de0a962fe6e197e3480814d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 090/129] fix: memmap_distributed: refuse dtypes holding python
 objects

---
 rsciio/utils/_distributed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index 8ad97d4..0c49fde 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -235,6 +235,10 @@ def memmap_distributed(
     "data" or "sec" will need to be specified.
     """
 
+    if dtype.hasobject:
+        # The bytes of the file would be used as addresses of python objects
+        raise ValueError("Array can't be memory-mapped: Python objects in dtype.")
+
     if dtype.names is not None:
         # Structured dtype
         array_dtype = dtype[key].base
-- 
2.43.0


From 900217fcfd0b896f15991e5f149b51d57c3df00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 091/129] fix: netcdf reader: read files with scipy

---
 rsciio/netcdf/_api.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rsciio/netcdf/_api.py b/rsciio/netcdf/_api.py
index d8aecce..2128b14 100644
--- a/rsciio/netcdf/_api.py
+++ b/rsciio/netcdf/_api.py
@@ -22,6 +22,7 @@ import os
 import numpy as np
 
 from rsciio._docstrings import FILENAME_DOC, LAZY_UNSUPPORTED_DOC, RETURNS_DOC
+from rsciio.utils._tools import ensure_unicode
 
 _logger = logging.getLogger(__name__)
 
@@ -98,11 +99,13 @@ def file_reader(filename, lazy=False):
     if lazy is not False:
         raise NotImplementedError("Lazy loading is not supported.")
 
-    ncfile = netcdf_file_reader(filename, "r")
+    # scipy maps the file to memory otherwise, and is unable to close it then
+    kwargs = {"mmap": False} if netcdf_reader == "scipy" else {}
+    ncfile = netcdf_file_reader(filename, "r", **kwargs)
 
     if (
         hasattr(ncfile, "file_format_version")
-        and ncfile.file_format_version == "EELSLab 0.1"
+        and _get_attribute(ncfile, "file_format_version") == "EELSLab 0.1"
     ):
         dictionary = nc_hyperspy_reader_0dot1(ncfile, filename)
     else:
@@ -115,6 +118,11 @@ def file_reader(filename, lazy=False):
 file_reader.__doc__ %= (FILENAME_DOC, LAZY_UNSUPPORTED_DOC, RETURNS_DOC)
 
 
+def _get_attribute(obj, name):
+    """Get an attribute of the file or of a variable; scipy gives text as bytes."""
+    return ensure_unicode(getattr(obj, name))
+
+
 def nc_hyperspy_reader_0dot1(ncfile, filename):
     calibration_dict, acquisition_dict, treatments_dict = {}, {}, {}
     dc = ncfile.variables["data_cube"]
@@ -123,7 +131,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
         calibration_dict["history"] = eval(ncfile.history)
     for attrib in attrib2netcdf.items():
         if hasattr(dc, attrib[1]):
-            value = eval("dc." + attrib[1])
+            value = _get_attribute(dc, attrib[1])
             if isinstance(value, np.ndarray):
                 calibration_dict[attrib[0]] = value[0]
             else:
@@ -136,7 +144,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
             )
     for attrib in acquisition2netcdf.items():
         if hasattr(dc, attrib[1]):
-            value = eval("dc." + attrib[1])
+            value = _get_attribute(dc, attrib[1])
             if isinstance(value, np.ndarray):
                 acquisition_dict[attrib[0]] = value[0]
             else:
@@ -149,7 +157,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
             )
     for attrib in treatments2netcdf.items():
         if hasattr(dc, attrib[1]):
-            treatments_dict[attrib[0]] = eval("dc." + attrib[1])
+            treatments_dict[attrib[0]] = _get_attribute(dc, attrib[1])
         else:
             _logger.warning(
                 "Warning: the attribute '%s' is not defined in the file '%s'",
@@ -157,7 +165,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
                 filename,
             )
     original_metadata = {
-        "record_by": ncfile.type,
+        "record_by": _get_attribute(ncfile, "type"),
         "calibration": calibration_dict,
         "acquisition": acquisition_dict,
         "treatments": treatments_dict,
-- 
2.43.0


From f5f0552964c0518a227a19156e7b0b9fd217c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 092/129] fix: protochips: read the notes as text

---
 rsciio/protochips/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 0cb8838..7ed35b7 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -156,6 +156,9 @@ class ProtochipsCSV(object):
             names=names,
             skip_header=self.header_last_line_number,
             encoding="latin1",
+            # the notes are free text, which can look like numbers or contain "#"
+            comments=None,
+            converters={names.index("Notes"): str.strip},
         )
 
         self._data_dictionary = dict()
-- 
2.43.0


From c9cf9e61ee3dee7be88673afebf27edc66c6686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 093/129] fix: protochips: read the header with the encoding of
 the data

---
 rsciio/protochips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 7ed35b7..0c86a0f 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -80,7 +80,7 @@ class ProtochipsCSV(object):
         self._read_data()
 
     def _parse_header(self):
-        with open(self.filename, "r") as f:
+        with open(self.filename, "r", encoding="latin1") as f:
             s = f.readline()
             self.column_name = s.replace(", ", ",").replace("\n", "").split(",")
             if not self._is_protochips_csv_file():
-- 
2.43.0


From bd5ffa8d52f9de1ab348d0576ae130f8c38e6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 094/129] fix: impulse: metadata with commas and empty lines

---
 rsciio/impulse/_api.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index 617cde1..ea55ad6 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -153,15 +153,18 @@ class ImpulseCSV:
                 with open(metadata_file, newline="") as csvfile:
                     metadata_file_reader = csv.reader(csvfile, delimiter=",")
                     for row in metadata_file_reader:
+                        # the values and the notes can contain commas
                         if notes_section:
-                            notes.append(row[0])
+                            notes.append(",".join(row))
+                        elif not row:
+                            continue
                         elif row[0] == "Live notes":
                             notes_section = True
-                            notes = [row[1].strip()]
+                            notes = [",".join(row[1:]).strip()]
                         else:
-                            self.original_metadata[row[0].replace(" ", "_")] = row[
-                                1
-                            ].strip()
+                            self.original_metadata[row[0].replace(" ", "_")] = ",".join(
+                                row[1:]
+                            ).strip()
                     self.original_metadata["Notes"] = notes
 
             else:
-- 
2.43.0


From 9f36ba8a50e304564f2e667d21ca50746ad72f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 095/129] fix: parse_msa_string: empty lines

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 8bbe2e1..970b551 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -186,7 +186,7 @@ def parse_msa_string(string, filename=None):
     data_section = False
     for line in string:
         if data_section is False:
-            if line[0] == "#":
+            if line.startswith("#"):
                 try:
                     key, value = line.split(": ", 1)
                     value = value.rstrip()
@@ -205,7 +205,7 @@ def parse_msa_string(string, filename=None):
                     data_section = True
         else:
             # Read the data
-            if line[0] != "#" and line.strip():
+            if not line.startswith("#") and line.strip():
                 line_ = line.replace(",", " ").strip().split()
                 if parameters["DATATYPE"] == "XY":
                     y.append(float(line_[1]))
-- 
2.43.0


From a4114979e03f0866a9118bcdec5eeffb455ef83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 096/129] fix: dens: files with empty lines only

---
 rsciio/dens/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..ab18d21 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,7 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        while line.strip() == "" and line != "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From 3ccd7b9e8d30a9c92628d1d0d3b548209421ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 097/129] fix: netcdf reader: navigate of the axes of images
 and spectra

---
 rsciio/netcdf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/netcdf/_api.py b/rsciio/netcdf/_api.py
index 2128b14..96469b2 100644
--- a/rsciio/netcdf/_api.py
+++ b/rsciio/netcdf/_api.py
@@ -179,7 +179,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
         scaleskeys = ["zscale", "yscale", "xscale"]
         originskeys = ["zorigin", "yorigin", "xorigin"]
         unitskeys = ["zunits", "yunits", "xunits"]
-        navigate = [True, False, False]
+        navigate = [True, False, False][3 - dim :]
 
     elif record_by == "spectrum":
         dim = len(data.shape)
@@ -187,7 +187,7 @@ def nc_hyperspy_reader_0dot1(ncfile, filename):
         scaleskeys = ["yscale", "xscale", "energyscale"]
         originskeys = ["yorigin", "xorigin", "energyorigin"]
         unitskeys = ["yunits", "xunits", "energyunits"]
-        navigate = [True, True, False]
+        navigate = [True, True, False][3 - dim :]
 
     # The images are recorded in the Fortran order
     data = data.T.copy()
-- 
2.43.0


From c99d222c8ec9438995e193e98a7f42da5de7874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 098/129] fix: edax: line scans with one point or one channel

---
 rsciio/edax/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index fd95b43..f55f1ae 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -910,7 +910,7 @@ def si_reader(
     nav_units = "µm"
 
     if linescan:
-        data = data.squeeze()[:nSpectra, :]
+        data = data.reshape((-1, data.shape[-1]))[:nSpectra, :]
         if csv_fname is None:
             csv_basename = os.path.splitext(filename)[0] + ".csv"
             csv_path = os.path.dirname(filename)
-- 
2.43.0


From c6853ab16713a3ccf958c76a2f62f282619b46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 099/129] fix: msa: write the numbers exactly

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 970b551..6fdb410 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -543,11 +543,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 axis_dict["size"]
             )
             for x, y in zip(axis, signal["data"]):
-                f.write("%g%s%g" % (x, separator, y))
+                f.write("%r%s%r" % (float(x), separator, float(y)))
                 f.write("\u000d\u000a")
         elif format == "Y":
             for y in signal["data"]:
-                f.write("%f%s" % (y, separator))
+                f.write("%r%s" % (float(y), separator))
                 f.write("\u000d\u000a")
         else:
             raise ValueError("format must be one of: None, 'XY' or 'Y'")
-- 
2.43.0


From 11b0e36efa8cb8028df4b3eb1baa40aa7c388365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 100/129] fix: msa: names and units that are not defined are
 empty, not 'None'

---
 rsciio/msa/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 6fdb410..dd3478a 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -524,6 +524,8 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
         f.write("#%-12s: %s\u000d\u000a" % ("FORMAT", loc_kwds.pop("FORMAT")))
         f.write("#%-12s: %s\u000d\u000a" % ("VERSION", loc_kwds.pop("VERSION")))
         for keyword, value in loc_kwds.items():
+            if value is None:
+                value = ""
             if (
                 isinstance(value, str)
                 and keyword in ["TITLE", "COMMENT"]
-- 
2.43.0


From ca98abdab0d5517e85e46d59b598acfa37264027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 101/129] fix: msa: write signals whose time has fractions of
 seconds

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index dd3478a..2117c84 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -436,7 +436,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             month = US_MONTHS_D2A[month]
             loc_kwds["DATE"] = "-".join((day, month, year))
         if "General.time" in md:
-            time = dt.strptime(md.General.time, "%H:%M:%S")
+            time = dt.strptime(md.General.time[:8], "%H:%M:%S")
             loc_kwds["TIME"] = time.strftime("%H:%M")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
         loc_kwds["SIGNALTYPE"] = "EDS"
-- 
2.43.0


From 27e560431519e974b3f92f31f45562f259c81175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 102/129] fix: msa: spaces of long titles and comments

---
 rsciio/msa/_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 2117c84..733e1e8 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -532,8 +532,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 and len(value) > 0
             ):
                 # Split the value into multiple lines if it is too long, and write each line with the same keyword
-                for i in range(0, len(value), 64):
-                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[i : i + 64]))
+                while value:
+                    # spaces at the end of a line are not read
+                    n = len(value[:64].rstrip()) if len(value) > 64 else len(value)
+                    n = n or len(value)
+                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[:n]))
+                    value = value[n:]
             else:
                 f.write("#%-12s: %s\u000d\u000a" % (keyword, value))
 
-- 
2.43.0


From 6213d0fb33a377047936c94739940aaf6679864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 103/129] fix: incremental_filename: directories (.zspy) exist
 as well

---
 rsciio/utils/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/utils/path.py b/rsciio/utils/path.py
index 752dc3d..a7fd95e 100644
--- a/rsciio/utils/path.py
+++ b/rsciio/utils/path.py
@@ -78,9 +78,9 @@ def incremental_filename(filename, i=1):
     """
     filename = Path(filename)
 
-    if filename.is_file():
+    if filename.exists():
         new_filename = append2pathname(filename, f"-{i}")
-        if new_filename.is_file():
+        if new_filename.exists():
             return incremental_filename(filename, i + 1)
         else:
             return new_filename
-- 
2.43.0


From 66aa7b66f2048cb215c80aecec672750d908b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 104/129] fix: serial dates: fractions of seconds

---
 rsciio/utils/_date_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index b2aa1fb..0646f6b 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -56,7 +56,8 @@ def datetime_to_serial_date(dt):
         dt = dt.replace(tzinfo=tz.tzutc())
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     delta = dt - origin
-    return float(delta.days) + (float(delta.seconds) / 86400.0)
+    seconds = delta.seconds + delta.microseconds / 1e6
+    return float(delta.days) + (seconds / 86400.0)
 
 
 def serial_date_to_datetime(serial):
-- 
2.43.0


From 8b04212add6c02d1cb59a7f7956763591727ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 105/129] fix: serial dates before 1900

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 0646f6b..4c233fd 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -65,7 +65,7 @@ def serial_date_to_datetime(serial):
     # Excel date&time format
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     secs = (serial % 1.0) * 86400
-    delta = datetime.timedelta(int(serial), secs)
+    delta = datetime.timedelta(int(serial // 1), secs)
     return origin + delta
 
 
-- 
2.43.0


From 5bbc217d83602ecd134817053ef0588d7daf50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 106/129] fix: dates of windows files: exact microseconds

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 4c233fd..41cfe3e 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -128,5 +128,5 @@ def msfiletime_to_unix(msfiletime):
     -------
         datetime.datetime object"""
     return datetime.datetime(1601, 1, 1) + datetime.timedelta(
-        microseconds=msfiletime / 10
+        microseconds=int(msfiletime) // 10
     )
-- 
2.43.0


From e1f51bf7fdca1b344a60ae6ee3ca781ee147e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 107/129] fix: get_date_time_from_metadata: datetime64 of a
 date without time

---
 rsciio/utils/_date_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index 41cfe3e..8d68657 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -111,7 +111,7 @@ def get_date_time_from_metadata(metadata, formatting="ISO"):
         res = dt
     # numpy.datetime64 doesn't support time zone
     elif formatting == "datetime64":
-        res = np.datetime64(f"{date}T{time}")
+        res = np.datetime64(f"{date}T{time}" if time else f"{date}")
 
     return res
 
-- 
2.43.0


From 12990284ca3d2c6c4d1f37aadfa059c0a36dd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 108/129] fix: regular_array2rgbx of dask arrays

---
 rsciio/utils/rgb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/rgb.py b/rsciio/utils/rgb.py
index d8302f3..b3859a6 100644
--- a/rsciio/utils/rgb.py
+++ b/rsciio/utils/rgb.py
@@ -164,7 +164,7 @@ def regular_array2rgbx(data):
         The transformed RGBx structured array.
     """
     # Make sure that the data is contiguous
-    if data.flags["C_CONTIGUOUS"] is False:
+    if not is_dask_array(data) and data.flags["C_CONTIGUOUS"] is False:
         if np.ma.is_masked(data):
             data = data.copy(order="C")
         else:
@@ -179,6 +179,12 @@ def regular_array2rgbx(data):
         formats = [data.dtype] * len(names)
     else:
         raise ValueError("The data dtype must be uint16 or uint8")
+    if is_dask_array(data):
+        return data.rechunk({-1: -1}).map_blocks(
+            regular_array2rgbx,
+            dtype=np.dtype({"names": names, "formats": formats}),
+            drop_axis=data.ndim - 1,
+        )
     return data.view(np.dtype({"names": names, "formats": formats})).reshape(
         data.shape[:-1]
     )
-- 
2.43.0


From a24481b44ff20f1fb35261da630e1a883d2a8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 109/129] fix: overwrite: capital answers after a wrong one

---
 rsciio/utils/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/path.py b/rsciio/utils/path.py
index a7fd95e..5a0c60f 100644
--- a/rsciio/utils/path.py
+++ b/rsciio/utils/path.py
@@ -131,7 +131,7 @@ def overwrite(filename):
             answer = answer.lower()
             while (answer != "y") and (answer != "n"):
                 print("Please answer y or n.")  # noqa: T201
-                answer = input(message)
+                answer = input(message).lower()
             if answer.lower() == "y":
                 return True
             elif answer.lower() == "n":
-- 
2.43.0


From 9c91acf7809ca94b3709b2d847df0a6f2a3bc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 110/129] fix: jeol: the Z of an element without lines

---
 rsciio/jeol/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 6bb0915..0069658 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1291,8 +1291,7 @@ def _parse_eds(fd):
         for i in range(n_elem):
             # mark elem
             _ = np.fromfile(fd, "<i", 1)[0]  # = 2
-            # Z
-            _ = np.fromfile(fd, "<H", 1)[0]
+            z = np.fromfile(fd, "<H", 1)[0]
             # mark1, mark2
             _, _ = np.fromfile(fd, "<i", 2)  # = 1, 0
             roi_min, roi_max = np.fromfile(fd, "<H", 2)
@@ -1308,7 +1307,7 @@ def _parse_eds(fd):
                 # mark_line?
                 _ = np.fromfile(fd, "<i", 1)[0]  # = 1
                 e_line = np.fromfile(fd, "<d", 1)[0]
-                z = np.fromfile(fd, "<H", 1)[0]
+                z_line = np.fromfile(fd, "<H", 1)[0]
                 e_length = np.fromfile(fd, "<b", 1)[0]
                 e_name = _decode(fd.read(e_length).rstrip(b"\x00"))
                 l_length = np.fromfile(fd, "<b", 1)[0]
@@ -1316,7 +1315,7 @@ def _parse_eds(fd):
                 detect = np.fromfile(fd, "<i", 1)[0]
                 lines[e_name + "_" + l_name] = {
                     "energy": e_line,
-                    "Z": z,
+                    "Z": z_line,
                     "detection": detect,
                 }
             elems[elem_name] = {
-- 
2.43.0


From a72e32c75edba1cca7af3981ddae94d5a585381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 111/129] fix: hspy: the EELS settings of old files replaced
 their other detectors

---
 rsciio/_hierarchical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 0e64c3e..09866fb 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -530,7 +530,7 @@ class HierarchicalReader:
                         del tem["exposure_units"]
                     if "Detector" not in tem:
                         tem["Detector"] = {}
-                    tem["Detector"] = tem["EELS"]
+                    tem["Detector"]["EELS"] = tem["EELS"]
                     del tem["EELS"]
                 if "EDS" in tem:
                     if "Detector" not in tem:
-- 
2.43.0


From a36381824127d3e9183d80e1838ca29a0af0f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 112/129] fix: hspy: the stage and camera of old files were
 replaced by the tilt and exposure

---
 rsciio/_hierarchical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 09866fb..aaa6119 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -587,7 +587,7 @@ class HierarchicalReader:
                     tem = exp["metadata"]["Acquisition_instrument"]["TEM"]
                     exposure = None
                     if "tilt_stage" in tem:
-                        tem["Stage"] = {"tilt_alpha": tem["tilt_stage"]}
+                        tem.setdefault("Stage", {})["tilt_alpha"] = tem["tilt_stage"]
                         del tem["tilt_stage"]
                     if "exposure" in tem:
                         exposure = "exposure"
@@ -597,15 +597,14 @@ class HierarchicalReader:
                     if "exposure_time" in tem:
                         exposure = "exposure_time"
                     if exposure is not None:
-                        if "Detector" not in tem:
-                            tem["Detector"] = {"Camera": {"exposure": tem[exposure]}}
-                        tem["Detector"]["Camera"] = {"exposure": tem[exposure]}
+                        camera = tem.setdefault("Detector", {}).setdefault("Camera", {})
+                        camera["exposure"] = tem[exposure]
                         del tem[exposure]
                 # Move tilt_stage to Stage.tilt_alpha
                 if "SEM" in exp["metadata"]["Acquisition_instrument"]:
                     sem = exp["metadata"]["Acquisition_instrument"]["SEM"]
                     if "tilt_stage" in sem:
-                        sem["Stage"] = {"tilt_alpha": sem["tilt_stage"]}
+                        sem.setdefault("Stage", {})["tilt_alpha"] = sem["tilt_stage"]
                         del sem["tilt_stage"]
 
         return exp
-- 
2.43.0


From 3111079951b37882fe30a5a0293c327ecd8d5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 113/129] fix: jobinyvon: read files without ND filter, hole or
 with a single channel

---
 rsciio/jobinyvon/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index 3501146..90117c9 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -75,6 +75,7 @@ class JobinYvonXMLReader:
     def __init__(self, file_path, use_uniform_signal_axis=False):
         self._file_path = file_path
         self._use_uniform_signal_axis = use_uniform_signal_axis
+        self._reverse_signal = False
 
         if importlib.util.find_spec("lumispy") is None:
             self._lumispy_installed = False
@@ -652,15 +653,15 @@ class JobinYvonXMLReader:
         ## convert filter range from percentage (0-100) to (0-1)
         try:
             laser["Filter"]["optical_density"] /= 100
-        except KeyError:  # pragma: no cover
-            pass  # pragma: no cover
+        except TypeError:
+            pass
 
         ## convert entrance_hole_width to mm
         try:
             spectrometer["entrance_slit_width"] /= 100
             spectrometer["pinhole"] = spectrometer["entrance_slit_width"]
-        except KeyError:  # pragma: no cover
-            pass  # pragma: no cover
+        except TypeError:
+            pass
 
         self.metadata = {
             "General": general,
-- 
2.43.0


From 771d3cc9e7b94655de3c1947afda1aaea4ec02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 114/129] fix: hamamatsu: '=' within a quoted value is no
 separator

---
 rsciio/hamamatsu/_api.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index d2fa939..c0602db 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -291,16 +291,15 @@ class IMGReader:
         return result
 
     @staticmethod
-    def _get_range_for_val(v, sep, count, num_entries, str_len):
+    def _get_range_for_val(v, sep, str_len):
         if v[sep + 1] == '"':
             end_val = v.index('"', sep + 2)
             start_val = sep + 2
             total_end = end_val + 2
         else:
-            if count == num_entries:
+            end_val = v.find(",", sep)
+            if end_val == -1:
                 end_val = str_len
-            else:
-                end_val = v.index(",", sep)
             start_val = sep + 1
             total_end = end_val + 1
         return start_val, end_val, total_end
@@ -309,16 +308,13 @@ class IMGReader:
         result = {}
         str_len = len(entries_str)
         cur_pos = 0
-        counter = 0
-        num_entries = entries_str.count("=")
-        if num_entries == 0:
+        if "=" not in entries_str:
             return entries_str
         while cur_pos < str_len:
-            counter += 1
             sep_idx = entries_str.index("=", cur_pos)
             key = entries_str[cur_pos:sep_idx]
             start_val, end_val, cur_pos = self._get_range_for_val(
-                entries_str, sep_idx, counter, num_entries, str_len
+                entries_str, sep_idx, str_len
             )
             val = entries_str[start_val:end_val]
             result[key] = val
-- 
2.43.0


From d328db7a78064bc8f7c79553fe3f82ce92efb8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 115/129] fix: trivista: hardware with a single element of a
 kind, or none

---
 rsciio/trivista/_api.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index fe5040c..a4f4ef9 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -61,6 +61,13 @@ def _remove_none_from_dict(dict_in):
             del dict_in[key]
 
 
+def _get_elements(parent, group, name):
+    """List of the elements of a group, whether it has none, a single one or several."""
+    elements = parent.get(group)
+    elements = elements.get(name, []) if isinstance(elements, dict) else []
+    return elements if isinstance(elements, list) else [elements]
+
+
 def _process_info_serialized(head):
     """Recursive processing designed for the InfoSerialized entry from the original_metadata."""
     result = {}
@@ -239,7 +246,9 @@ class TrivistaTVFReader:
         except KeyError:
             return
 
-        for laser in metadata_hardware["Hardware"]["LightSources"]["LightSource"]:
+        for laser in _get_elements(
+            metadata_hardware["Hardware"], "LightSources", "LightSource"
+        ):
             try:
                 laser_wl = laser["Wavelengths"]["Value_0"]
             except KeyError:
@@ -251,15 +260,19 @@ class TrivistaTVFReader:
     @staticmethod
     def _filter_detector_metadata(infoSerialized_processed, metadata_hardware):
         """Filter Detector section via name"""
-        for detector in metadata_hardware["Hardware"]["Detectors"]["Detector"]:
+        for detector in _get_elements(
+            metadata_hardware["Hardware"], "Detectors", "Detector"
+        ):
             if detector["Name"] == infoSerialized_processed["Detector"]["Name"]:
                 metadata_hardware["Hardware"]["Detectors"]["Detector"] = detector
 
     @staticmethod
     def _filter_objectives_metadata(metadata_hardware):
         """Filter microscope section (objective) via isEnabled tag"""
-        for microscope in metadata_hardware["Hardware"]["Microscopes"]["Microscope"]:
-            for objective in microscope["Objectives"]["Objective"]:
+        for microscope in _get_elements(
+            metadata_hardware["Hardware"], "Microscopes", "Microscope"
+        ):
+            for objective in _get_elements(microscope, "Objectives", "Objective"):
                 if objective["IsEnabled"]:
                     metadata_hardware["Hardware"]["Microscopes"]["Microscope"] = (
                         microscope
@@ -290,9 +303,9 @@ class TrivistaTVFReader:
         ##         - ...
         ##     - Spectrometer2
         ##         - ...
-        for spectrometer in metadata_hardware["Hardware"]["Spectrometers"][
-            "Spectrometer"
-        ]:
+        for spectrometer in _get_elements(
+            metadata_hardware["Hardware"], "Spectrometers", "Spectrometer"
+        ):
             if spectrometer["Serialnumber"] in spectrometer_serial_numbers:
                 idx = spectrometer_serial_numbers.index(spectrometer["Serialnumber"])
                 spectrometer_name = spectrometer_serialized_list[idx]
@@ -300,8 +313,7 @@ class TrivistaTVFReader:
                     spectrometer
                 )
                 ## filter grating via groove density
-                gratings_root = spectrometer["Gratings"]["Grating"]
-                for grating in gratings_root:
+                for grating in _get_elements(spectrometer, "Gratings", "Grating"):
                     if (
                         grating["GrooveDensity"]
                         == infoSerialized_processed["Spectrometers"][spectrometer_name][
-- 
2.43.0


From a85ec14ae21f9363954b4f973474a3781c063c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 116/129] fix: renishaw: positions of an interrupted
 measurement

---
 rsciio/renishaw/_api.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..7a65aac 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -431,6 +431,7 @@ class WDFReader(object):
         self._block_info = None
         self._points_per_spectrum = None
         self._num_spectra = None
+        self._capacity = None
         self._measurement_type = None
         self._unfinished_measurement = False
         self.data = None
@@ -445,6 +446,7 @@ class WDFReader(object):
         header_data = self._parse_WDF1()
         self._points_per_spectrum = header_data["points_per_spectrum"]
         self._num_spectra = header_data["num_spectra"]
+        self._capacity = header_data["capacity"]
         self._measurement_type = header_data["measurement_type"]
 
         ## parse metadata blocks
@@ -779,7 +781,7 @@ class WDFReader(object):
         header["ntracks"] = self.__read_numeric("uint32")
         header["file_status_error_code"] = self.__read_numeric("uint32")
         result["points_per_spectrum"] = self.__read_numeric("uint32")
-        header["capacity"] = self.__read_numeric("uint64")
+        result["capacity"] = self.__read_numeric("uint64")
         result["num_spectra"] = self.__read_numeric("uint64")
         ## if cosmic ray removal (crr) is enabled,
         ## then 2 extra spectra are collected
@@ -920,7 +922,7 @@ class WDFReader(object):
             "ORGN",
             "Navigation axes",
             block_size - 16,
-            4 + origin_count * (24 + 8 * self._num_spectra),
+            4 + origin_count * (24 + 8 * self._capacity),
         )
         for _ in range(origin_count):
             ax_tmp_dict = {}
@@ -961,15 +963,13 @@ class WDFReader(object):
             )
 
     def _set_data_for_ORGN(self, dtype):
+        ## there is one value for each spectrum that was set to be measured,
+        ## also when the measurement is unfinished
+        type = "uint64" if dtype == DataType.Time.name else "double"
+        result = self.__read_numeric(type, size=self._capacity, ret_array=True)
+        result = result[: self._num_spectra]
         if dtype == DataType.Time.name:
-            result = self.__read_numeric(
-                "uint64", size=self._num_spectra, ret_array=True
-            )
             result -= result[0]
-        else:
-            result = self.__read_numeric(
-                "double", size=self._num_spectra, ret_array=True
-            )
         return result
 
     def _parse_WMAP(self):
-- 
2.43.0


From d7dbe426e21f10cc266639585c1e51bf467ed50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 117/129] fix: renishaw: interrupted line scan

---
 rsciio/renishaw/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 7a65aac..d21f59b 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -1000,6 +1000,7 @@ class WDFReader(object):
 
     def _set_nav_via_WMAP(self, wmap_dict, units):
         result = {}
+        flag = wmap_dict["flag"]
         for idx, ax_name in enumerate(["X", "Y"]):
             axis_tmp = {
                 "name": ax_name,
@@ -1012,11 +1013,13 @@ class WDFReader(object):
             result[ax_name] = axis_tmp
 
         if self._unfinished_measurement:
-            # Measurement is unfinished, keep the finished line only
-            result["Y"]["size"] = self._num_spectra // result["X"]["size"]
+            if flag == MapType.xyline.name:
+                result["X"]["size"] = min(result["X"]["size"], self._num_spectra)
+            else:
+                # Measurement is unfinished, keep the finished line only
+                result["Y"]["size"] = self._num_spectra // result["X"]["size"]
 
         # TODO: differentiate between more map_modes/flags
-        flag = wmap_dict["flag"]
         if flag == MapType.xyline.name:
             result = self._set_wmap_nav_linexy(result["X"], result["Y"])
         elif flag == DefaultEnum.Unknown.name:
-- 
2.43.0


From 7f9726b502d247a729d47bda6457522f276b799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 118/129] fix: renishaw: the axis of a series of one spectrum
 had scale NaN

---
 rsciio/renishaw/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index d21f59b..df1271f 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -1064,7 +1064,7 @@ class WDFReader(object):
             nav_dict[axis]["navigate"] = True
             nav_dict[axis]["size"] = data.size
             nav_dict[axis]["name"] = axis
-            scale_mean = np.mean(np.diff(data))
+            scale_mean = np.mean(np.diff(data)) if data.size > 1 else 0
             if axis == "FocusTrack_Z" or scale_mean == 0:
                 # FocusTrack_Z is not uniform and not necessarily ordered
                 # Fix me when hyperspy supports non-ordered non-uniform axis
-- 
2.43.0


From f97acc6e6a660f5a001fc266bad35443183d341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 119/129] fix: renishaw: matching of metadata names that
 several sets share

---
 rsciio/renishaw/_api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index df1271f..e042d8d 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -702,7 +702,7 @@ class WDFReader(object):
         keys_lvl = [i for i in keys_in if i.count("_") == level]
         for num, k in enumerate(keys_lvl):
             keys_in.remove(k)
-            subkeys = [i for i in keys_in if i.startswith(k)]
+            subkeys = [i for i in keys_in if i.startswith(f"{k}_")]
             unmatched_values_k = self._unmatched_metadata[k]["values"]
             result[f"sub{num}"] = {
                 "subdicts": self._match_WXDM_values(level + 1, subkeys, unmatched_keys)
@@ -728,14 +728,16 @@ class WDFReader(object):
         ]
         ## only top level contains unmatched keys
         ## these keys are used multiple times for different values in different subdicts
-        self._unmatched_WXDM_keys = self._unmatched_metadata["WXDM_0"].get("keys")
+        self._unmatched_WXDM_keys = self._unmatched_metadata.get("WXDM_0", {}).get(
+            "keys"
+        )
         if self._unmatched_WXDM_keys is None:
             return
         matched_WXDM = self._match_WXDM_values(
             1, WXDM_entries, deepcopy(self._unmatched_WXDM_keys)
         )
         self.original_metadata["WXDM_0"].update(
-            {"extra_matches": matched_WXDM["sub0"]["subdicts"]}
+            {"extra_matches": matched_WXDM["sub0"].get("subdicts", {})}
         )
         ## remove matched values/keys from unmatched_metadata
         for k in WXDM_entries:
-- 
2.43.0


From 061531601ca0e8f1839ce90ca5d938bfc4961b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 120/129] fix: tiff: big-endian data read lazily contradicted
 its announced dtype

Uncompressed data of a big-endian file came with the byte order of the file
whereas the lazy array announced the native one; 16-bit RGB images of such
files couldn't be read.
---
 rsciio/tiff/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index c754ffb..e2c4f2f 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -412,7 +412,9 @@ def _read_tiff(
 
 
 def _load_data(handle, is_rgb, memmap=None, **kwds):
-    dc = handle.asarray(out=memmap)
+    # depending on how the data is stored, the array may have the byte order of
+    # the file instead of the (native) one of the handle
+    dc = handle.asarray(out=memmap).astype(handle.dtype, copy=False)
     _logger.debug("data shape: {0}".format(dc.shape))
     if is_rgb:
         from rsciio.utils import rgb
-- 
2.43.0


From 4b7e984d62f11eb7e26ce30d6b2dd75912778ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 121/129] fix: nexus: descending axes were read as ascending
 ones

without the data being reversed, so that the calibration was wrong.
---
 rsciio/nexus/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c3c00c8..1e0aced 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -252,8 +252,8 @@ def _get_nav_list(data, dataentry):
                                     "size": data.shape[ind_in_array],
                                     "index_in_array": ind_in_array,
                                     "name": ax,
-                                    "scale": abs(dataentry[ax][1] - dataentry[ax][0]),
-                                    "offset": min(dataentry[ax][0], dataentry[ax][-1]),
+                                    "scale": dataentry[ax][1] - dataentry[ax][0],
+                                    "offset": dataentry[ax][0],
                                     "units": units,
                                     "navigate": navigation,
                                 }
-- 
2.43.0


From 42632d6ac5ecdd77afc4ed1d3047abdaeaf6bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 122/129] fix: nexus: datasets beside a signal got its axes

The array of an axis, which is read as well, came with the first axis of
the signal, even if of another size.
---
 rsciio/nexus/_api.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 1e0aced..9b61926 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -328,7 +328,15 @@ def _extract_hdf_dataset(group, dataset, lazy=False):
         if dataset.split("/")[-1] == data_key:
             return None
 
-    nav_list = _get_nav_list(data, data.parent)
+        # the axes of the group are those of the signal: they describe other
+        # datasets (as the errors) only if these have the same shape
+        signal = data.parent.get("data" if _is_int(data_key) else data_key)
+        if isinstance(signal, h5py.Dataset) and signal.shape != data.shape:
+            nav_list = []
+        else:
+            nav_list = _get_nav_list(data, data.parent)
+    else:
+        nav_list = _get_nav_list(data, data.parent)
 
     if lazy:
         import dask.array as da
-- 
2.43.0


From ccac8e071136fd8b7b55884075b8ddd5362b5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 123/129] fix: nexus: uneven axes of small values were taken
 for linear ones

The steps were compared with an absolute tolerance of 1e-8, more than the
whole axis may be if it is in meters.
---
 rsciio/nexus/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 9b61926..253ef03 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -702,7 +702,12 @@ def _is_linear_axis(data):
     """
     steps = np.diff(data)
     est_steps = np.array([steps[0]] * len(steps))
-    return np.allclose(est_steps, steps, rtol=1.0e-5)
+    # the absolute tolerance is what rounding may make of a step; it doesn't
+    # depend on the units (the values may well be in meters)
+    atol = 0.0
+    if np.issubdtype(data.dtype, np.floating):
+        atol = 4 * np.finfo(data.dtype).eps * np.abs(np.asarray(data)).max()
+    return np.allclose(est_steps, steps, rtol=1.0e-5, atol=atol)
 
 
 def _is_numeric_data(data):
-- 
2.43.0


From 77448e69856eed209833c090a0d16d8fe21cddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 124/129] fix: nexus: signals with an axis of texts couldn't be
 read

---
 rsciio/nexus/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 253ef03..b8b4193 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -244,9 +244,10 @@ def _get_nav_list(data, dataentry):
                 navigation = True
                 named_axes.remove(ind_in_array)
 
-                if _is_numeric_data(dataentry[ax]):
+                numeric = _is_numeric_data(dataentry[ax])
+                if numeric or dataentry[ax].size > 1:
                     if dataentry[ax].size > 1:
-                        if _is_linear_axis(dataentry[ax]):
+                        if numeric and _is_linear_axis(dataentry[ax]):
                             nav_list.append(
                                 {
                                     "size": data.shape[ind_in_array],
@@ -724,7 +725,7 @@ def _is_numeric_data(data):
 
     """
     try:
-        data.astype(float)
+        np.asarray(data).astype(float)
         return True
     except ValueError:
         return False
-- 
2.43.0


From 14ec14056f761c4c85b40d0bdd9e6a550fc7f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 125/129] fix: nexus: the order of signals selected by keys was
 arbitrary

and changed from one process to the next.
---
 rsciio/nexus/_api.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index b8b4193..785e19d 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -857,24 +857,17 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             nx_datasets = all_nx_datasets
             hdf_datasets = all_hdf_datasets
 
-    matched_hdf = set()
-    matched_nexus = set()
+    # dictionaries, since these keep the order, which is that of the keys
+    matched_hdf = {}
+    matched_nexus = {}
     # return data having the specified absolute paths
-    if absolute_path is not None:
-        matched_hdf.update(
-            [j for j in hdf_datasets if any(s == j for s in absolute_path)]
-        )
-        matched_nexus.update(
-            [j for j in nx_datasets if any(s == j for s in absolute_path)]
-        )
+    for path in absolute_path or []:
+        matched_hdf.update({j: None for j in hdf_datasets if path == j})
+        matched_nexus.update({j: None for j in nx_datasets if path == j})
     # return data which contains a search string
-    if search_keys is not None:
-        matched_hdf.update(
-            [j for j in hdf_datasets if any(s in j for s in search_keys)]
-        )
-        matched_nexus.update(
-            [j for j in nx_datasets if any(s in j for s in search_keys)]
-        )
+    for key in search_keys or []:
+        matched_hdf.update({j: None for j in hdf_datasets if key in j})
+        matched_nexus.update({j: None for j in nx_datasets if key in j})
 
     matched_nexus = list(matched_nexus)
     matched_hdf = list(matched_hdf)
-- 
2.43.0


From bdc5611827bad71c9b730b27a972659b5f83f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 126/129] fix: nexus: use_default loaded more than the default
 dataset

It loaded all whose path merely contains the one of the default and, without
a default, everything whatever the other options.
---
 rsciio/nexus/_api.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 785e19d..c991b8a 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -582,9 +582,6 @@ def _read_signals(
     hdf_data_paths = []
     # check if a default dataset is defined
     if use_default:
-        nexus_data_paths, hdf_data_paths = _find_data(
-            fin, search_keys=None, hardlinks_only=False
-        )
         nxentry = None
         nxdata = None
         if "attrs" in original_metadata:
@@ -594,17 +591,15 @@ def _read_signals(
                 rootlist = list(original_metadata.keys())
                 rootlist.remove("attrs")
                 if rootlist and len(rootlist) == 1:
-                    nxentry == rootlist[0]
+                    nxentry = rootlist[0]
             if nxentry:
-                if "default" in original_metadata[nxentry]["attrs"]:
-                    nxdata = original_metadata[nxentry]["attrs"]["default"]
+                entry = original_metadata.get(nxentry)
+                if isinstance(entry, dict) and "default" in entry.get("attrs", {}):
+                    nxdata = entry["attrs"]["default"]
             if nxentry and nxdata:
                 nxdata = "/" + nxentry + "/" + nxdata
             if nxdata:
-                hdf_data_paths = []
-                nexus_data_paths = [
-                    nxpath for nxpath in nexus_data_paths if nxdata in nxpath
-                ]
+                nexus_data_paths, _ = _find_data(fin, absolute_path=[nxdata])
 
     # if no default found then search for the data as normal
     if not nexus_data_paths and not hdf_data_paths:
-- 
2.43.0


From 5f52f15711d2b0f40f93e26293c89dacf1f8fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 127/129] fix: nexus: hardlinks_only followed external links

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c991b8a..2ba11bf 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -179,7 +179,7 @@ def _getlink(h5group, rootkey, key):
     if rootkey != "/":
         if isinstance(h5group, h5py.Group):
             _link = h5group.get(key, getlink=True)
-            if isinstance(_link, h5py.SoftLink):
+            if isinstance(_link, (h5py.SoftLink, h5py.ExternalLink)):
                 _target = _link.path
         if "target" in h5group.attrs.keys():
             _target = _parse_from_file(h5group.attrs["target"])
-- 
2.43.0


From 8a644c20a0fde22351ce7337867eaf3b2c41d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 128/129] fix: nexus: dimensions that a text of axes doesn't
 name had no axis

---
 rsciio/nexus/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 2ba11bf..fdfc107 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -219,7 +219,8 @@ def _get_nav_list(data, dataentry):
             for i, num in enumerate(axes_keys):
                 axes_list[i] = _parse_from_file(num)
         elif isinstance(axes_key, (str, bytes)):
-            axes_list = _parse_from_file(axes_key).split(",")[: data.ndim]
+            names = _parse_from_file(axes_key).split(",")[: data.ndim]
+            axes_list[: len(names)] = names
         else:
             axes_list[0] = _parse_from_file(axes_key)
 
-- 
2.43.0


From 0741fdd45a2cc80a71838a1bc935f922c5d406d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 129/129] fix: nexus: arrays of texts were returned as signals

The condition to leave these out was never met.
---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index fdfc107..5b5d717 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -827,7 +827,7 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
                 if isinstance(value, h5py.Dataset):
                     if value.size >= 2:
                         target = _getlink(group, rootkey, key)
-                        if not (value.dtype.type is str or value.dtype.type is object):
+                        if value.dtype.kind not in "OSU":
                             all_hdf_datasets.append(rootkey)
                             if target is None:
                                 unique_hdf_datasets.append(rootkey)
-- 
2.43.0

