From 5211750fc3306cbae5dc3bd3342b469172ed5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 01/36] fix: rmerge passes its mapping types down to nested
 merges

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..6591c76 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -306,7 +306,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 5dd6a228507de07350016d4a5def49cc2bb220ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 02/36] fix: get_from returns the default for missing
 non-string keys and indices

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 6591c76..ef4901c 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,7 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
             return default
     return level
 
-- 
2.43.0


From 2c3c896cee6c9ee0f554ce3beec54e8621f0c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 03/36] fix: a MaybePool can be reused unchunked after a
 chunked map

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ef4901c..a9c93bb 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -376,6 +376,7 @@ class MaybePool:
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
+        self.chunked = False
         if (as_chunks is False) or (self.pool is None):
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
-- 
2.43.0


From f7fccb3279046ca01e2ab6fd03e5ec3c0a660c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 04/36] fix: removing from a TagIndex works for bytes keys

---
 dustgoggles/codex/implements.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..b9d26e0 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -372,9 +372,7 @@ class TagIndex(ShareableIndex):
         self.length = None
 
     def hash_address(self, key):
-        if not isinstance(key, bytes):
-            key = str(key).encode()
-        namehash = HASHER(key).hexdigest()
+        namehash = HASHER(str(key).encode()).hexdigest()
         return f"{self.name}_name_{namehash}"
 
     def key_address(self, index_ix):
@@ -456,7 +454,7 @@ class TagIndex(ShareableIndex):
                 overwrite=True
             )
             moved_block.buf[:] = lastkey
-            nameblock = SharedMemory(self.hash_address(lastkey))
+            nameblock = SharedMemory(self.hash_address(lastkey.decode()))
             nameblock.buf[:] = found_at.to_bytes(8, "little")
             lastblock.unlink()
             lastblock.close()
-- 
2.43.0


From fe2b529d7fe07df8dab3901bae719fb5c1c66efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 05/36] fix: removing from a MetaTagIndex no longer waits for
 its own lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b9d26e0..0c93a7b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -581,7 +581,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 929fcaf5a31dbe7e1e9df1468eeceecf7f65983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 06/36] fix: delete_block(missing_ok=True) tolerates a missing
 block

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..a417b92 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -49,7 +49,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From 2fc35d7851a8624e2a7b3eeb4f60244821647cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 07/36] fix: Notepad raises KeyError for missing keys and can
 store None

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0c93a7b..c0c0aff 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -745,10 +745,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not found in this object's space.")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From f89f0edde1732392f9f2d999f9598ddfe90d5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 08/36] fix: notepads refuse every key that could touch their
 own index

---
 dustgoggles/codex/implements.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c0c0aff..01ea69b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -757,7 +757,7 @@ class Notepad(AbstractNotepad):
             return default
 
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
-        if isinstance(key, str) and key.startswith("index"):
+        if str(key).startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
@@ -774,8 +774,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if str(key).startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -863,7 +863,7 @@ class GridPaper(AbstractNotepad):
     def __setitem__(
         self, key, value, exists_ok: bool = True, keep_open: bool = False
     ):
-        if isinstance(key, str) and key.startswith("index"):
+        if str(key).startswith("index"):
             raise KeyError("'index' is a reserved namespace.")
         try:
             metadata, block = self.memorize(
@@ -898,8 +898,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if str(key).startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From 5dbd6384a9b85697fdf235cce380fdadc01a87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 09/36] fix: GridPaper.clear iterates over the key list

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 01ea69b..bd38a69 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -919,7 +919,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 6d3435902934d43079ae42f8a7f1f53abdd7954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 10/36] fix: array mnemonics honour exists_ok and overwrite
 blocks of another size

---
 dustgoggles/codex/codecs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..8210268 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,7 +133,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        block = open_block(address, array.size * array.itemsize, True, True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-- 
2.43.0


From 890173db0da85c93998d09c706989784065cf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 11/36] fix: array mnemonics accept zero-dimensional arrays

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 8210268..b607d71 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -139,7 +139,7 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From 7e563c44d3532a8ad69ef236e4d81065dec82c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 12/36] fix: a Sticky can be re-stuck with an object of another
 size

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index bd38a69..e9b527e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -985,7 +985,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From c4e1a47ce855245471700ac025f61037763769ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 13/36] fix: the ast codec round-trips strings

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index b607d71..42f894f 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,7 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From 91f19207a36d7b3557e2880a6877924a998a73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 14/36] fix: downcast returns a record for zero arrays with
 nonfinite elements

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..ded7d4f 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -209,7 +209,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 172cc3373ffe44060f78933941e2a632fb77cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 15/36] fix: integer bounds are compared exactly when
 downcasting

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index ded7d4f..8972f13 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -149,6 +149,9 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    if dt.kind in 'iu':
+        # numpy would round integer bounds to the type of a float operand
+        amin, amax = np.asarray(amin).item(), np.asarray(amax).item()
     try:
         return bool(amin >= info.min and amax <= info.max)
     except TypeError:  # just too big!
-- 
2.43.0


From fa4b52bdc03a8aa0a92ed27d282ae3e7a2677dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 16/36] fix: downcast_df keeps the index of the frame

---
 dustgoggles/pivot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8972f13..6587462 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -261,9 +261,8 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        cast_series.append(recast.set_axis(df.index))
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From b6a864ecc588c0c47e15257d1d8390540f6dc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 17/36] fix: check_and_drop_duplicate_columns compares the
 duplicates

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 6587462..797bc68 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,7 +50,8 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
+        block = dataframe.loc[:, column]
+        test_equality = block.eq(block.iloc[:, 0], axis=0)
         if not test_equality.all(axis=None):
             raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
-- 
2.43.0


From 6e19986440d3004f28b72bddaf5210cc688fdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 18/36] fix: sort_chunked orders chunks in the requested
 direction

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..e4cc73d 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -153,6 +153,8 @@ def sort_chunked(
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 9edee664070af7d79e3cc29a7c1016b1a98052d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 19/36] fix: sort_chunked keeps the rows holding a very large
 maximum

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index e4cc73d..016583d 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -152,7 +152,7 @@ def sort_chunked(
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    windows[-1] = (windows[-1][0], np.inf)
     if direction == "descending":
         windows.reverse()
     try:
-- 
2.43.0


From bc19d21d3be7aa55f4babfc27557e9afe882b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 20/36] fix: a Dynamic can be unloaded before it was loaded

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..bcc321d 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From cec9ef62b553a4cfa5a8242b6c15bc688d2a18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 21/36] fix: Dynamic.from_function keeps the source and globals
 of the function

---
 dustgoggles/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index bcc321d..6940bbf 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -183,8 +183,9 @@ class Dynamic:
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
+        source = dynamic.source
         dynamic.__init__(*init_args, **init_kwargs)
+        dynamic.source, dynamic.globals_ = source, func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 2c6458c76a194939853a242435901fd946c56f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 22/36] fix: scraping returns the captured text when evaluating
 it fails in any way

---
 dustgoggles/scrape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..eee8721 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,9 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From 26a1653b9412c7d1291dcc100281eee97680da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 23/36] fix: an unserialisable log leaves the tracker's file as
 it was

---
 dustgoggles/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..2f31fe9 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,7 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        payload = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +90,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(payload)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From 43df4108ecbd0bd6ea2d05424edc9c18d9fca733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 24/36] fix: unnest keeps levels named with the empty string

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index a9c93bb..4eb67a1 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -47,7 +47,7 @@ def _unnest(nested, mtypes, escape, levels):
     if not isinstance(nested, mtypes):
         return nested
     prefix = f"{escape}_{escape}".join(map(str, levels))
-    if len(prefix) > 0:
+    if len(levels) > 0:
         prefix = f"{escape}{prefix}{escape}_"
     long_records = []
     for level, maybe_mapping in nested.items():
-- 
2.43.0


From 19423212d6ac8422d3f3a99654392dd2faf1c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 25/36] fix: SlidingLock admitted two holders at once

A process takes a numbered slot before placing its lock, so checking only
for earlier locks let a later slot in first; and a slot freed while another
process was about to take it was used a second time, behind later ones.
---
 dustgoggles/codex/implements.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index e9b527e..97d46ae 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -185,21 +185,29 @@ class SlidingLock:
         self.release()
 
     def _renumber(self):
-        self.floor = int.from_bytes(self.count.buf.tobytes(), "little")
-        self.number = self.floor + 1
         while self.marker is None:
-            try:
-                self.marker = SharedMemory(
-                    f"{self.name}_{self.number}", size=1, create=True
-                )
-            except FileExistsError:
-                self.number += 1
+            self.floor = int.from_bytes(self.count.buf.tobytes(), "little")
+            self.number = self.floor + 1
+            while self.marker is None:
+                try:
+                    self.marker = SharedMemory(
+                        f"{self.name}_{self.number}", size=1, create=True
+                    )
+                except FileExistsError:
+                    self.number += 1
+            # a slot already used and released by someone else has no place
+            # in the queue: take a later one
+            if int.from_bytes(self.count.buf.tobytes(), "little") >= self.number:
+                self.marker.unlink()
+                self.marker.close()
+                self.marker = None
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking slot {self.number}")
 
     def _check_acquirement(self):
         for other_number in reversed(range(self.floor, self.number)):
-            if exists_block(f"{self.name}_{other_number}_lock"):
+            # a process holds its slot before it places its lock
+            if exists_block(f"{self.name}_{other_number}"):
                 if getattr(self, "debug") is True:
                     log(f"{here()},{self.number},{other_number} has precedence")
                 # # # # #
-- 
2.43.0


From 3b9e34e17c84beaff527fd067998541613531038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 26/36] fix: Notepad listed a key whose value could not be
 stored

---
 dustgoggles/codex/implements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 97d46ae..ec006e8 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -769,7 +769,13 @@ class Notepad(AbstractNotepad):
             raise KeyError("'index' is a reserved key prefix")
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, self.address(key), exists_ok)
+            except BaseException:
+                # a value that cannot be stored leaves no key behind
+                if not exists_block(self.address(key)):
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From d2c80602d2346a6281ecc954b57d18d2ee86892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 27/36] fix: extract_constants reports each line's own constant
 value

---
 dustgoggles/pivot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 797bc68..45c43dd 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -57,6 +57,12 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
+def _constant_value(series: pd.Series, dropna: bool):
+    """the value of each (if `dropna`, non-null) element of a constant Series"""
+    present = series.dropna() if dropna is True else series
+    return itemize_numpy((series if len(present) == 0 else present).iloc[0])
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -104,7 +110,8 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        lines = constants.iterrows() if how == "columns" else constants.items()
+        constants = {ix: _constant_value(series, dropna) for ix, series in lines}
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 86cd1d4c9a04e9b05590a73b93dbdb750148f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 28/36] fix: extract_constants took lines sharing a constant
 line's label as constant

---
 dustgoggles/pivot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 45c43dd..edfaf00 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -88,10 +88,10 @@ def extract_constants(
         constant_indices = pd.Series(False, df.index)
     try:
         method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
+        for i, (_, series) in enumerate(getattr(df, method)()):
             series = series if dropna is False else series.dropna()
             if (len(series) == 0) or (series == series.iloc[0]).all():
-                constant_indices.loc[ix] = True
+                constant_indices.iloc[i] = True
     except TypeError:
         # TODO: still necessary?
         if how == "columns":
-- 
2.43.0


From 6ad077056e378506857d813887bbfb76c735f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 29/36] fix: dupe_df_block keeps each column's type and values

---
 dustgoggles/pivot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index edfaf00..3755f47 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,8 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    rows = np.repeat(np.arange(len(dataframe)), repeats)
+    return dataframe.iloc[rows].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From da45f19e7e96c8f1a5201979d41134ca341f9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 30/36] fix: unpack_column keeps rows apart, their values and
 the caller's frame

---
 dustgoggles/pivot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3755f47..16447ff 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -325,9 +325,10 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
-    unpacked = unpack(df[colname])
-    df.loc[unpacked.index, unpacked.columns] = unpacked
-    return df.drop(columns=colname)
+    # match rows by position: index labels might not be unique
+    unpacked = unpack(df[colname].reset_index(drop=True))
+    unpacked = unpacked.reindex(range(len(df))).set_axis(df.index, axis=0)
+    return pd.concat([df.drop(columns=colname), unpacked], axis=1)
 
 
 def unique_to_records(df, cols):
-- 
2.43.0


From df6a6f524512621c2e84b4c47f2bf535316ae95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 31/36] fix: squeeze of Series whose types have no numpy
 character code

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 16447ff..d7cd940 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -350,7 +350,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if pd.api.types.is_bool_dtype(series.dtype):
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From 0639e44e926d21742e5ab67b6b69b544e09b3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 32/36] fix: squeeze keeps index labels when the Series is
 named like its index

---
 dustgoggles/pivot.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index d7cd940..81c2176 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -354,14 +354,5 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
-    squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
-        aggfunc=aggfunc,
-    )[sname]
-    squeezed.index.name = series.index.name
-    squeezed.name = series.name
-    return squeezed
+    levels = list(range(series.index.nlevels))
+    return series.groupby(level=levels).agg(aggfunc)
-- 
2.43.0


From 4670a08a40fb97ce37accc028a097b2fe29a72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 33/36] fix: a serial MaybePool does not raise exceptions that
 a call returns

---
 dustgoggles/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 4eb67a1..87b27e7 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -339,15 +339,16 @@ class HashDict:
 
 class MaybeResult:
     def __init__(self, func, args, kwargs):
+        self.raised = False
         try:
             self.value = func(*args, **kwargs)
         except KeyboardInterrupt:
             raise
         except Exception as ex:
-            self.value = ex
+            self.value, self.raised = ex, True
 
     def get(self):
-        if isinstance(self.value, Exception):
+        if self.raised is True:
             raise self.value
         return self.value
 
-- 
2.43.0


From 9ca922880cabb5ebec81b7b8d26ddd4abb09677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:07 +0000
Subject: [PATCH 34/36] fix: squeeze keeps values whose index label is missing

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 81c2176..8af3be4 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -355,4 +355,4 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
         else:
             return series.loc[~series.index.duplicated()]
     levels = list(range(series.index.nlevels))
-    return series.groupby(level=levels).agg(aggfunc)
+    return series.groupby(level=levels, dropna=False).agg(aggfunc)
-- 
2.43.0


From d432bf13cb4522e2f5886208549645b05fb7d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 35/36] fix: a key an index cannot store leaves the index as it
 was

---
 dustgoggles/codex/implements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index ec006e8..bff92b8 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -425,8 +425,6 @@ class TagIndex(ShareableIndex):
                 return found_at
             raise FileExistsError
         self.update_length()
-        new_length_bytes = (self.length + 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
         keybytes = str(key).encode()
         keyblock = open_block(
             self.key_address(self.length),
@@ -438,6 +436,10 @@ class TagIndex(ShareableIndex):
         position_bytes = self.length.to_bytes(8, "little")
         nameblock = open_block(self.hash_address(key), create=True, size=8)
         nameblock.buf[:] = position_bytes
+        # count the key only once it is written, so that a key that cannot be
+        # stored leaves the index as it was
+        new_length_bytes = (self.length + 1).to_bytes(8, "little")
+        self.memory.buf[:] = new_length_bytes
         if getattr(self, "debug") is True:
             log(f"{here()},,set {self.length} to {key}")
         return self.length
-- 
2.43.0


From aafbc22b03809a264d5a331478d370cfba94af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 36/36] fix: a notepad refuses a key that cannot name a block
 before indexing it

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index bff92b8..eb11417 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -769,6 +769,8 @@ class Notepad(AbstractNotepad):
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
         if str(key).startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
+        # a key that cannot name a block is refused before it is indexed
+        exists_block(self.address(key))
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
             try:
-- 
2.43.0

