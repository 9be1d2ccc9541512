From 7d62735709d6ed41b183744b3b350a95a003812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:07 +0000
Subject: [PATCH 001/102] fix: AVG alongside SUM/COUNT of the same column
 double counted values

---
 mabel/data/internals/group_by.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..4471d35 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -116,10 +116,14 @@ class GroupBy:
 
         requested_aggs = aggregations.copy()
 
-        # averages need the sum and the count
-        for func, col in aggregations:
+        # averages need the sum and the count - each distinct aggregation is only
+        # calculated once, calculating it twice would double count the values
+        aggregations = list(dict.fromkeys(aggregations))
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                for dependency in (("SUM", col), ("COUNT", col)):
+                    if dependency not in aggregations:
+                        aggregations.append(dependency)
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From e193571f40c2108584af89eaed321d2bf2d649b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:07 +0000
Subject: [PATCH 002/102] fix: zero values were ignored by the MIN, MAX and SUM
 group aggregations

---
 mabel/data/internals/group_by.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 4471d35..1a68394 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -146,11 +146,8 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
-                        value = AGGREGATORS[func](existing, value)
-                    else:
-                        value = existing
+                if existing is not None:
+                    value = AGGREGATORS[func](existing, value)
                 elif func == "COUNT":
                     # the COUNT needs seeding with 1, the next cycles are just
                     # adding 1 to the last value.
-- 
2.43.0


From 569fa320c17efb5c6add30579493c43c7b4b240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:07 +0000
Subject: [PATCH 003/102] fix: groups where the aggregated column is always
 null raised or went missing

---
 mabel/data/internals/group_by.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 1a68394..d43cc31 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -156,6 +156,14 @@ class GroupBy:
                 # update the collector with the latest value
                 collector[record[0]][key] = value
 
+        # groups with only nulls in the aggregated columns haven't been collected, but
+        # they're still groups
+        for group in self._group_keys:
+            results = collector[group]
+            for func, col in aggregations:
+                if func == "COUNT":
+                    results.setdefault(f"COUNT({col})", 0)
+
         # the order of the resulting data set is the order of the hashes - this
         # will appear random, but will ensure the order is consistent between
         # reruns.
@@ -165,7 +173,8 @@ class GroupBy:
         for group, results in collector.items():
             for func, col in requested_aggs:
                 if func == "AVG":
-                    results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
+                    count = results[f"COUNT({col})"]
+                    results[f"AVG({col})"] = results[f"SUM({col})"] / count if count else None
 
             results = {
                 f"{func}({col})": results.get(f"{func}({col})") for func, col in requested_aggs
-- 
2.43.0


From eb1b0dbf7635b436c292caccd49597515802102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 004/102] fix: groups with different values were merged when
 the values concatenate to the same string

---
 mabel/data/internals/group_by.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index d43cc31..8ced055 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,12 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            # use the repr of the list of values, so the boundaries between the values
+            # and the types of the values are part of the key
+            group_key: int = xxh3_64_intdigest(
+                repr([record.get(column) for column in self._columns]),
+                HASH_SEED,
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From 4ba595e4af809015816ca42162437ead67f47a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 005/102] fix: distinct dropped records with different values
 which look the same when concatenated

---
 mabel/data/internals/dictset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..6a18a7a 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -295,12 +295,10 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    hashed_item = hash(repr([item.get(c, "$$") for c in columns]))
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
+                    hashed_item = hash(
+                        repr(sorted(item.items(), key=lambda entry: str(entry[0])))
                     )
                 if hashed_item not in hash_list:
                     yield item
-- 
2.43.0


From 9503cce7200b4ea127bfe32b0b8bbe2e71ad788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 006/102] fix: taking zero records (and LIMIT 0) returned all
 of the records

---
 mabel/data/internals/dictset.py            | 2 ++
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 6a18a7a..a42589d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -392,6 +392,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..acc0558 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -341,14 +341,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From c3c41dc361d9c60f61ec57b6d8de32b0cb89d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 007/102] fix: get_items returned nothing for MEMORY DictSets
 and failed on generators

---
 mabel/data/internals/dictset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index a42589d..de4406f 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -325,7 +325,11 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if self.storage_class in (
+            STORAGE_CLASS.MEMORY,
+            STORAGE_CLASS.DISK,
+            STORAGE_CLASS.COMPRESSED_MEMORY,
+        ):
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -336,7 +340,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From ff4899755d6b37bec62fa7a40e61468275fcc7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 008/102] fix: reading an empty DictSet persisted to DISK
 raised an error

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..98c3cf9 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        # empty files can't be memory mapped
+        if self.length == 0:
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From 0ee19edb9e6ddf59d225183e97a57437480fa65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 009/102] fix: COMPRESSED_MEMORY dropped empty records

---
 .../storage_classes/storage_class_compressed_memory.py        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..d2cd137 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -63,9 +63,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
         else:
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
-                for record in records:
-                    if record:
-                        yield record
+                yield from records
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From f506a8f98b0db78a44c0c0acf27adcc01151d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 010/102] fix: DictSets could not be iterated when list-backed,
 nor more than once when persisted

---
 mabel/data/internals/dictset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index de4406f..a72f85e 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,6 +117,11 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        # start from the beginning, unless it's a generator
+        iterator = iter(self._iterator)
+        # collections, like lists, can't be stepped through with next
+        if not hasattr(self._iterator, "__next__"):
+            return iterator
         return self
 
     def __next__(self):
-- 
2.43.0


From 6474b2c20e33c8f3808bc8ab20e4bb696ee0f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 011/102] fix: types reported mixed for columns when the
 DictSet isn't persisted

---
 mabel/data/internals/dictset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index a72f85e..30ca9d0 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -186,13 +186,14 @@ class DictSet(object):
         )
 
     def types(self, number_of_rows: int = 100):
-        top = self.take(number_of_rows)
+        # the rows are cycled over many times, so can't be in a generator
+        top = DictSet(self.itake(number_of_rows), storage_class=STORAGE_CLASS.MEMORY)
         response = {}
         for key in top.keys():
             key_type = {type(val).__name__ for val in top.collect_list(key) if val != None}
             if len(key_type) == 0:  # pragma: no cover
                 response[key] = "empty"
-            if len(key_type) == 1:
+            elif len(key_type) == 1:
                 response[key] = key_type.pop()
             elif sorted(key_type) == ["float", "int"]:
                 response[key] = "numeric"
-- 
2.43.0


From 6e2947fe2395e706b2124e9a8bd6cb21aa4d7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 012/102] fix: partition folders sharing a prefix were read
 more than once

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..1aa5774 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From 5c73ec95a2b16b0db0f6c4ba2d07504662d748cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 013/102] fix: frames sharing a prefix with the selected frame
 were also read

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 1aa5774..d73ca8e 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -215,7 +215,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 1574a695e850654d617c61818bfd81c90eab391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 014/102] fix: cursors couldn't be resumed after blobs were
 added to the dataset

---
 mabel/data/readers/internals/cursor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 8d6ab80..88ec23c 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -57,7 +57,9 @@ class Cursor:
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
         self.read_blobs = [
-            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
+            self.readable_blobs[i]
+            for i in range(min(len(self.readable_blobs), len(blob_map)))
+            if blob_map[i]
         ]
 
     def next_blob(self, previous_blob=None):
-- 
2.43.0


From 87c404b84952c1d6674dc26da77d738bec61405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 015/102] fix: nulls, lists and dictionaries were turned to
 strings by the multiprocess reader

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..02cb0a0 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,14 +25,14 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt is None or dt_type in (int, float, bool, str):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
         if dt_type == dict:
-            return str(fix_dict(dt))
+            return fix_dict(dt)
         if dt_type in (list, tuple, set):
-            return str([fix_fields(i) for i in dt])
+            return [fix_fields(i) for i in dt]
         if dt_type in (datetime.date, datetime.datetime):
             return dt.isoformat()
         if dt_type == bytes:
-- 
2.43.0


From 857b677aba02ad2e38d0ec67e8db423e441ce05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 016/102] fix: the multiprocess reader hung when a worker quit
 before being sent work

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 02cb0a0..4609d58 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -109,11 +109,9 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
     process_start_time = time.time()
     item_index = slots
 
-    while (
-        any({p.is_alive() for p in process_pool})
-        or not reply_queue.empty()
-        or not send_queue.empty()
-    ):
+    # don't wait on the send queue, workers which have already quit don't collect the
+    # TERMINATE signals sent for them
+    while any({p.is_alive() for p in process_pool}) or not reply_queue.empty():
         try:
             records = reply_queue.get(timeout=1)
             yield from map(json, [r for r in lz4.frame.decompress(records).split(b"\n") if r])
-- 
2.43.0


From 9a683c0c55b387815467c12b8c744588b8eec225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 017/102] fix: flattening lists lost the parent key so lists
 overwrote each other

---
 mabel/data/internals/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..b58fae7 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,11 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(
+                    flatten(
+                        dictionary={str(k): v}, separator=separator, parent_key=new_key
+                    ).items()
+                )
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 68de7f9eb9e2fd13b3009e7368a05c7ef2966fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 018/102] fix: LIKE wildcards didn't match new lines

---
 mabel/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..6c0cdc5 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,9 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile(
+        "^" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", flags=re.DOTALL
+    )
 
 
 def like(x, y):
-- 
2.43.0


From e60dcadab14f20b9f77ebd2c4ba82a0bfad20502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 019/102] fix: missing values were LIKE the word none

---
 mabel/utils/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 6c0cdc5..0bf98eb 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -42,6 +42,9 @@ def _sql_like_fragment_to_regex(fragment):
 
 
 def like(x, y):
+    # nulls aren't like anything, even '%' or 'none'
+    if x is None:
+        return False
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From 8393572e28a6e6433a522608bb985ee649648741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 020/102] fix: IN trimmed the first and last character from the
 values in list fields

---
 mabel/utils/token_labeler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..5e505c7 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -42,7 +42,9 @@ def interpret_value(value):
     except ValueError:
         pass
 
-    value = value[1:-1]
+    # only literals are quoted, values from records aren't
+    if len(value) > 1 and value[0] == value[-1] and value[0] in ("'", '"', "`"):
+        value = value[1:-1]
     return parse_iso(value) or value
 
 
-- 
2.43.0


From 3dd6dc4bed7eb97a20e1510b261729ec3fb8751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 021/102] fix: a value which can't be compared by a DNF filter
 lost the rest of the blob

---
 mabel/data/internals/dnf_filters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dnf_filters.py b/mabel/data/internals/dnf_filters.py
index a5a7503..5f4bf65 100644
--- a/mabel/data/internals/dnf_filters.py
+++ b/mabel/data/internals/dnf_filters.py
@@ -56,7 +56,12 @@ def evaluate(predicate: Union[tuple, list], record: dict) -> bool:
     if isinstance(predicate, tuple):
         key, op, value = predicate
         record_value = record.get(key, None)
-        return record_value is not None and OPERATORS[op.lower()](record_value, value)
+        operation = OPERATORS[op.lower()]
+        try:
+            return record_value is not None and operation(record_value, value)
+        except TypeError:
+            # values which can't be compared don't match
+            return False
 
     if isinstance(predicate, list):
         # Are all of the entries tuples?
-- 
2.43.0


From 84872392a0410d8c70be728d0f2cece8c3eb542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 022/102] fix: the last record in zstandard blobs was lost when
 it wasn't newline terminated

---
 mabel/data/readers/internals/decompressors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 00fc9ae..e1fbd84 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -8,7 +8,11 @@ def zstd(stream):
     import zstandard  # type:ignore
 
     with zstandard.open(stream, "rb") as file:  # type:ignore
-        yield from file.read().split(b"\n")[:-1]
+        lines = file.read().split(b"\n")
+        # the last line may or may not be terminated
+        if lines[-1] == b"":
+            lines.pop()
+        yield from lines
 
 
 def lzma(stream):
-- 
2.43.0


From 545cd65e372b534a50d3d6e4c207b424ba8b8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 023/102] fix: new lines in quoted csv values were lost

---
 mabel/data/readers/internals/decompressors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index e1fbd84..5295469 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -77,5 +77,7 @@ def block(stream):
 
 def csv(stream):
     import csv
+    import io
 
-    yield from csv.DictReader(stream.read().decode("utf8").splitlines())
+    # csv needs to find the ends of the lines, they may be in quoted values
+    yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From 9ac6fa133c7a4c0bc516fe8466921e8ffc041212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 024/102] fix: RIGHT of zero characters returned the whole
 string

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..86be3e7 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -213,7 +213,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) != 0 else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From 7d8dbd5b98351f2f24a99f8afa49417282671f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 025/102] fix: MD5 returned the hash of an equal but different
 value, and failed on lists

---
 mabel/data/readers/internals/inline_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 86be3e7..145e709 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -6,7 +6,6 @@ These are the function definitions, the processor which uses these is in the
 """
 
 import datetime
-from functools import lru_cache
 from math import trunc
 
 import orjson
@@ -182,7 +181,6 @@ def parse_number(parser, coerce):
     return inner
 
 
-@lru_cache(8)
 def get_md5(item):
     import hashlib
 
-- 
2.43.0


From b8519086971e0770fa9f4d0c48e54b806bb88094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 026/102] fix: HTML tables failed on lists of numbers and
 didn't escape bytes

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From e774a9a2ebfbca94fe17a889aee28e3baf9eba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 027/102] fix: ASCII tables put values under the wrong heading
 when columns are missing

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a6feed2..24d02ca 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -128,7 +128,7 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join([format_value(row.get(k, "")).center(w + 2) for k, w in columns.items()])
             + "│"
         )
 
-- 
2.43.0


From a080139c62cca9bdaf9e99dfd2d8691b3984038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 028/102] fix: blobs committed in the same clock tick overwrote
 each other

---
 mabel/data/writers/internals/base_inner_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..9cfc984 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -7,6 +7,7 @@ The primary activity is contained in the .commit() method.
 """
 
 import abc
+import itertools
 import os
 import time
 import uuid
@@ -15,6 +16,7 @@ from functools import lru_cache
 from mabel.utils import paths
 
 STEM = "{stem}"
+SEQUENCE = itertools.count()
 
 
 class BaseInnerWriter(abc.ABC):
@@ -37,7 +39,8 @@ class BaseInnerWriter(abc.ABC):
         self.filename_without_bucket = path + STEM + self.extension
 
     def _build_path(self):
-        blob_id = f"{time.time_ns():x}-{self._get_node()}"
+        # the sequence keeps names unique when the clock hasn't moved on
+        blob_id = f"{time.time_ns():x}-{self._get_node()}-{next(SEQUENCE):06x}"
         return self.filename.replace(STEM, f"{blob_id}")
 
     @lru_cache(1)
-- 
2.43.0


From fa101048dd02961f6c0b73f4387152086986a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 029/102] fix: parse_iso raised on numbers which are out of
 range for a date

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..f280d0f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -130,7 +130,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From 8ab6adc368c97e716014f6a1711e1d00aa755ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 030/102] fix: selecting many groups from a CollectedSet raised
 an error

---
 mabel/data/internals/collected_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..d71e77d 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
-- 
2.43.0


From 4d1f6dd6bdc54206a4558b3ac318b4c96af2cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 031/102] fix: Writers accepted BACKOUT in dataset names,
 Readers never read from these

---
 mabel/data/writers/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 57ff917..650bf16 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -45,7 +45,7 @@ class Writer:
         dataset = kwargs.get("dataset", "")
 
         if "BACKOUT" in dataset:
-            InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
+            raise InvalidDataSetError("BACKOUT is a reserved word and cannot be used in Dataset names")
         if dataset.endswith("/"):
             InvalidDataSetError("Dataset names cannot end with /")
         if "{" in dataset or "}" in dataset:
-- 
2.43.0


From 111ce5c860e1e25c490ba48607493c22c290f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 032/102] fix: stream records with an empty list for a
 placeholder were lost

---
 mabel/data/writers/stream_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..41caff5 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -137,6 +137,9 @@ class StreamWriter(Writer):
                 value = record.get(placeholder)
                 if not isinstance(value, list):
                     value = [value]
+                # an empty list has no values, like when the field is missing
+                if not value:
+                    value = [None]
                 values.append(value)
             # get the cartesian product of these lists
             # save the result to a set otherwise it's not a cartesian product
-- 
2.43.0


From f9977ad8243c392198f828cc399d61a7aa5abe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 033/102] fix: stream records were duplicated when placeholder
 values sanitize to the same folder

---
 mabel/data/writers/stream_writer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 41caff5..4d29cdd 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -140,7 +140,8 @@ class StreamWriter(Writer):
                 # an empty list has no values, like when the field is missing
                 if not value:
                     value = [None]
-                values.append(value)
+                # different values can be the same once they're part of a path
+                values.append({text.sanitize(str(v)) for v in value})
             # get the cartesian product of these lists
             # save the result to a set otherwise it's not a cartesian product
             value_combinations = {i for i in itertools.product(*values)}
@@ -150,7 +151,7 @@ class StreamWriter(Writer):
                 this_identity = identity
                 # do the actual replacing of the placeholders
                 for k, v in zip(placeholders, values):
-                    this_identity = this_identity.replace("{" + k + "}", text.sanitize(str(v)))
+                    this_identity = this_identity.replace("{" + k + "}", v)
 
                 # get the writer and save the record
                 blob_writer = self.writer_pool.get_writer(this_identity)
-- 
2.43.0


From 3f545bfd87dba1b13b6644844a03ab1c967df172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 034/102] fix: StreamWriter finalize reported success when
 records couldn't be saved

---
 mabel/data/writers/internals/writer_pool.py | 3 ++-
 mabel/data/writers/stream_writer.py         | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..6298375 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # commit before removing, if the commit fails we still have the records
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 4d29cdd..1092cbf 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -162,6 +162,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        failure = None
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -170,9 +171,13 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
+                    failure = err
+        if failure is not None:
+            # the records in the failed writers haven't been saved
+            raise failure
         return super().finalize()
 
     def pool_attendant(self):
-- 
2.43.0


From cc7cf8fd0378efe7bb6d9f881c1eafaacb9dddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 035/102] fix: a failed eviction stopped the pool attendant so
 no more streams were evicted

---
 mabel/data/writers/stream_writer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 1092cbf..25ee833 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -180,6 +180,15 @@ class StreamWriter(Writer):
             raise failure
         return super().finalize()
 
+    def _evict(self, blob_writer_identity):
+        try:
+            self.writer_pool.remove_writer(blob_writer_identity)
+        except Exception as err:
+            # it's still in the pool, so is tried again - don't stop the attendant
+            get_logger().error(
+                f"Error evicting `{blob_writer_identity}`, {type(err).__name__} - {err}"
+            )
+
     def pool_attendant(self):
         """
         Writer Pool Management
@@ -193,13 +202,13 @@ class StreamWriter(Writer):
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due to inactivity - limit is {self.idle_timeout_seconds} seconds, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict(blob_writer_identity)
                 # if we're over capacity, evict the LRU writers
                 for blob_writer_identity in self.writer_pool.nominate_writers_to_evict():
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due the pool being over its {self.writer_pool_capacity} capacity, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict(blob_writer_identity)
 
             time.sleep(0.1)
 
-- 
2.43.0


From f739f61798b507ab305a6e4c2c676915a715f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 036/102] fix: MinIoReader listed each blob once for each hour
 in the date range

---
 mabel/adapters/minio/minio_reader.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..651c066 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,11 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name for blob in blobs if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From 7434655142adaa27fde317a482284d87e5a75d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 037/102] fix: MinIoReader hid the reason blobs couldn't be
 read

---
 mabel/adapters/minio/minio_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 651c066..d6ed71c 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -41,9 +41,9 @@ class MinIoReader(BaseInnerReader):
         ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
+        bucket, object_path, name, extension = paths.get_parts(blob_name)
+        stream = self.minio.get_object(bucket, object_path + name + extension)
         try:
-            bucket, object_path, name, extension = paths.get_parts(blob_name)
-            stream = self.minio.get_object(bucket, object_path + name + extension)
             return stream.read()
         finally:
             stream.close()
-- 
2.43.0


From 7eb13df66e364455cc0eb73ff5bf9337f703e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 038/102] fix: empty complete frames were flagged in the wrong
 folder on GCS

---
 mabel/adapters/google/google_cloud_storage_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..a0bb815 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,7 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
-- 
2.43.0


From be5d5e8aa6eae724773eafef3f3bfcb451e7ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 039/102] fix: Readers dropped empty records even when there's
 no filter

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From f6ef092787a976e729e01e3013497f2bc45e4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 040/102] fix: pydantic models couldn't be appended to Writers

---
 mabel/data/writers/database_writer.py | 2 +-
 mabel/data/writers/writer.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index 28519ed..b88b97e 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -86,7 +86,7 @@ class DatabaseWriter:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
diff --git a/mabel/data/writers/writer.py b/mabel/data/writers/writer.py
index 650bf16..321a3a1 100644
--- a/mabel/data/writers/writer.py
+++ b/mabel/data/writers/writer.py
@@ -128,7 +128,7 @@ class Writer:
             integer
                 The number of records in the current blob
         """
-        if "BaseModel" in str(type(record)):
+        if any("BaseModel" in str(base) for base in type(record).__mro__):
             if hasattr(record, "dict"):
                 record = record.dict()  # type.ignore
             if hasattr(record, "model_dump"):
-- 
2.43.0


From f8d8f1212aa5c38822c5e6ac19e891ddf76e073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 041/102] fix: streams were evicted from the pool before it was
 over capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 6298375..47a78ee 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -87,7 +87,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(len(self.writers) - self.pool_size, 0)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From ab37a6101a9ba8d2b085e43ac887c796ec256fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 042/102] fix: empty parquet blobs were written when all of the
 records were rejected

---
 mabel/data/writers/internals/blob_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..657b0e7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,8 +53,8 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
         self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
         # if this write would exceed the blob size, close it
         if self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
-- 
2.43.0


From a2baa3982a54697e4f0cd5008e1969a1aa31bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 043/102] fix: StreamWriter couldn't save nonconforming records
 to BACKOUT when writing parquet

---
 mabel/data/writers/internals/writer_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 47a78ee..1871a59 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -41,10 +41,14 @@ class WriterPool:
 
     def create_writer(self, identity):
         # instantiate a new writer
+        kwargs = self.kwargs.copy()
+        if kwargs.get("format") == "parquet" and "/BACKOUT" in identity:
+            # these records don't conform to the schema so can't be written to parquet
+            kwargs["format"] = "jsonl"
         new_writer = {
             "identity": identity,
             "last_access": time.time(),
-            "writer": BlobWriter(dataset=identity, **self.kwargs),
+            "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
 
-- 
2.43.0


From 757ceb1aaf57ddff5d25dc3cea6a5b349c5320b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 044/102] fix: abandoning a multiprocess read hung and left its
 workers running

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 4609d58..e9b89bd 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -131,6 +131,10 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
             logging.error("GENERATOR EXIT DETECTED")
             break
 
+    # if we're stopping early the workers are still waiting for work
+    for process in process_pool:
+        process.terminate()
+
     reply_queue.close()
     send_queue.close()
     reply_queue.join_thread()
-- 
2.43.0


From 4ee13cce1b0c39f0e54e14b47ee1c10b7897ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 045/102] fix: partition_filter on the start of a
 partitioning's name returned no records

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index d73ca8e..44560df 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From 4d3593fd38f5f6790eabc481cfaddea2f4395ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 046/102] fix: partition_filter was ignored for fields with an
 underscore in their name

---
 mabel/data/readers/internals/base_inner_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 44560df..bf87ade 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -125,7 +125,9 @@ class BaseInnerReader(abc.ABC):
                         raise NotImplementedError(
                             "`partition_filter` operation can only be equals (`=`)"
                         )
-                    partition_filter_field = text.sanitize(partition_filter_field)
+                    partition_filter_field = text.sanitize(
+                        partition_filter_field, text.VALID_CHARACTERS + "_"
+                    )
                     partition_filter_value = text.sanitize(partition_filter_value)
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
-- 
2.43.0


From 8166468c929bcdf36290ef0f9b23e113b83c703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 047/102] fix: malformed cursors raised assorted errors or were
 read as a fresh start

---
 mabel/data/readers/internals/cursor.py | 27 +++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 88ec23c..568ec38 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -35,25 +35,26 @@ class Cursor:
         if cursor is None:
             return
 
-        if isinstance(cursor, str):
-            cursor = orjson.loads(cursor)
-
-        if (
-            not "location" in cursor.keys()
-            or not "map" in cursor.keys()
-            or not "partition" in cursor.keys()
-        ):
-            raise InvalidCursor(f"Cursor is malformed or corrupted {cursor}")
-
-        self.location = cursor["location"]
+        try:
+            if isinstance(cursor, str):
+                cursor = orjson.loads(cursor)
+            map_bytes = bytes.fromhex(cursor["map"])
+            partition = int(cursor["partition"])
+            location = int(cursor["location"])
+        except (KeyError, TypeError, ValueError) as err:
+            raise InvalidCursor(f"Cursor is malformed or corrupted {cursor}") from err
+
+        self.location = location
         find_partition = [
             blob
             for blob in self.readable_blobs
-            if xxh3_64_intdigest(blob, 0) == cursor["partition"]
+            if xxh3_64_intdigest(blob, 0) == partition
         ]
         if len(find_partition) == 1:
             self.partition = find_partition[0]
-        map_bytes = bytes.fromhex(cursor["map"])
+        elif self.location >= 0:
+            # we don't know where to resume from, don't start again
+            raise InvalidCursor(f"Unable to determine current partition {cursor}")
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
         self.read_blobs = [
-- 
2.43.0


From ae3fbc9d6d111e57ff15736e443312ced8bdf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 048/102] fix: only the first frame of zstandard blobs was read

---
 mabel/data/readers/internals/decompressors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 5295469..70c94af 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -7,7 +7,9 @@ def zstd(stream):
     """
     import zstandard  # type:ignore
 
-    with zstandard.open(stream, "rb") as file:  # type:ignore
+    # there may be more than one frame in the file
+    decompressor = zstandard.ZstdDecompressor()
+    with decompressor.stream_reader(stream, read_across_frames=True) as file:
         lines = file.read().split(b"\n")
         # the last line may or may not be terminated
         if lines[-1] == b"":
-- 
2.43.0


From daec6ba36e7dfd9145d53596c09fbd7cd8fdb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 049/102] fix: filters on quoted fields could look for the
 wrong field when shared by threads

---
 mabel/data/internals/expression.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..595529d 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -225,10 +225,12 @@ class Expression(object):
         ):
             return treeNode.value
         if treeNode.token_type == TOKENS.VARIABLE:
-            if treeNode.value[0] == treeNode.value[-1] == "`":
-                treeNode.value = treeNode.value[1:-1]
-            if treeNode.value in variable_dict:
-                value = variable_dict[treeNode.value]
+            # the tree is shared by every evaluation, so it's never changed
+            name = treeNode.value
+            if name[0] == name[-1] == "`":
+                name = name[1:-1]
+            if name in variable_dict:
+                value = variable_dict[name]
                 return self.interpret_value(value)
             return None
 
-- 
2.43.0


From d7e89472ae8eefa6e3a939a7c1fdd79469d469b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 050/102] fix: text which looks like a number or date never
 matched quoted text in filters

---
 mabel/data/internals/expression.py | 49 ++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 595529d..bb161f6 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -22,6 +22,10 @@ from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
 
+# these operators look inside of text
+TEXT_OPERATORS = ("LIKE", "NOT LIKE", "MATCHES", "CONTAINS")
+
+
 class InvalidExpression(BaseException):
     pass
 
@@ -137,7 +141,15 @@ class Expression(object):
                     self.tokenizer.next_token_value().upper(),
                 )
                 self.tokenizer.next()
-                terminal2 = self.parse_terminal()
+                if (
+                    condition.value in TEXT_OPERATORS
+                    and self.tokenizer.has_next()
+                    and self.tokenizer.next_token_type() == TOKENS.DATE
+                ):
+                    # patterns are text, even if they look like dates
+                    terminal2 = TreeNode(TOKENS.LITERAL, self.tokenizer.next()[1:-1])
+                else:
+                    terminal2 = self.parse_terminal()
                 condition.left = terminal1
                 condition.right = terminal2
                 return condition
@@ -242,9 +254,24 @@ class Expression(object):
         right = self.evaluate_recursive(treeNode.right, variable_dict)
 
         if treeNode.token_type == TOKENS.OPERATOR:
+            # text in records is interpreted (e.g. as a number or date) unless it's used
+            # as text, then it's used as it was written
+            left_text = self.text_value(treeNode.left, variable_dict)
+            right_text = self.text_value(treeNode.right, variable_dict)
+            as_text = treeNode.value in TEXT_OPERATORS
+            if left_text is not None and (as_text or self.is_text(treeNode.right)):
+                left = left_text
+            if right_text is not None and (as_text or self.is_text(treeNode.left)):
+                right = right_text
             try:
-                return OPERATORS[treeNode.value](left, right)
-            except (TypeError, ValueError):
+                result = OPERATORS[treeNode.value](left, right)
+                if not result and treeNode.value == "IN":
+                    if left_text is not None:
+                        result = OPERATORS[treeNode.value](left_text, right)
+                    if not result and treeNode.right.token_type == TOKENS.VARIABLE:
+                        result = (left if left_text is None else left_text) in list(right)
+                return result
+            except (AttributeError, TypeError, ValueError):
                 return None
         if treeNode.token_type == TOKENS.AND:
             return left and right
@@ -253,6 +280,22 @@ class Expression(object):
 
         raise InvalidExpression(f"Unexpected value of type `{str(treeNode.token_type)}`")
 
+    def text_value(self, treeNode, variable_dict):
+        """
+        The value of a variable, as it's held in the record, if it's text.
+        """
+        if treeNode.token_type == TOKENS.VARIABLE:
+            name = treeNode.value
+            if name[0] == name[-1] == "`":
+                name = name[1:-1]
+            value = variable_dict.get(name)
+            if isinstance(value, str):
+                return value
+        return None
+
+    def is_text(self, treeNode):
+        return treeNode.token_type == TOKENS.LITERAL and isinstance(treeNode.value, str)
+
     def to_dnf(self):
         """
         Converting to DNF as sometimes it's easier to deal with DNF than an
-- 
2.43.0


From fd0492fe56ffda1343d4492406aba39a1dc41182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:28 +0000
Subject: [PATCH 051/102] fix: conditions after IS NULL were ignored in filters

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index bb161f6..9629b08 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -175,6 +175,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From 95ff810c4512864bebde10f12fd8439491a10d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:58 +0000
Subject: [PATCH 052/102] fix: quoted text holding keywords or runs of spaces
 was changed in filters

---
 mabel/utils/token_labeler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 5e505c7..3f10641 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -19,6 +19,9 @@ from mabel.utils.text import not_like
 # These are the characters we should escape in our regex
 REGEX_CHARACTERS = {ch: "\\" + ch for ch in ".^$*+?{}[]|()\\"}
 
+# text in quotes isn't split, have its case changed or its white space cleaned
+QUOTED = r"'[^']*'|\"[^\"]*\"|`[^`]*`"
+
 
 class TokenError(Exception):
     pass
@@ -206,7 +209,8 @@ def build_splitter():
     for item in ["(", ")", "[", "]", ",", "*"]:
         keywords.append("".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))
     splitter = re.compile(
-        r"(" + r"|".join(keywords) + r")",
+        # anything in quotes is a single token
+        r"(" + QUOTED + r"|" + r"|".join(keywords) + r")",
         re.IGNORECASE,
     )
     return splitter
@@ -306,8 +310,8 @@ class Tokenizer:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        whitespace_cleaner = re.compile(r"(" + QUOTED + r")|\s+")
+        return whitespace_cleaner.sub(lambda match: match.group(1) or " ", string).strip()
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From e12b2967962afdf7ba10c8da0e024af2d9ba8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 053/102] fix: WHERE and functions were ignored when selecting
 from a subquery

---
 mabel/data/readers/internals/sql_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index acc0558..b36ed42 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -272,6 +272,11 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        # there's no Reader to do these when the data is from a subquery
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From 9db2cf5e6e546ecbf308d94328c9ba50095e81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 054/102] fix: SQL keywords and runs of spaces in quoted text
 broke statements

---
 mabel/data/readers/internals/sql_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index b36ed42..46e1cbd 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -23,6 +23,7 @@ from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
 from mabel.data.readers.internals.inline_evaluator import get_function_name
+from mabel.utils.token_labeler import QUOTED
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
 
@@ -76,7 +77,10 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            # anything in quotes is a single part
+            r"("
+            + QUOTED
+            + r"|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
             re.IGNORECASE,
@@ -88,8 +92,8 @@ class SqlParser:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        _RE_COMBINE_WHITESPACE = re.compile(r"(" + QUOTED + r")|\s+")
+        return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
         pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-- 
2.43.0


From 26c0883a79c8c479464e82ef49500b9af4406678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 055/102] fix: columns selected more than once, or swapping
 names, were lost by AS

---
 mabel/data/readers/internals/sql_reader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 46e1cbd..d083183 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -328,15 +328,16 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
+    renames = [  # type:ignore
+        (get_function_name(t), t["as"])
+        for t in sql.select_evaluator.tokens  # type:ignore
+        if t["as"]
+    ]
 
     def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
+        # a column can be in the results many times, and swap names with other columns
+        row = dict(row)
+        row.update({name: row[column] for column, name in renames if column in row})
         return row
 
     if renames:
-- 
2.43.0


From 744e399abd54923ea2ea6df7ce60052a1afd009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 056/102] fix: SQL statements with unexpected parts were parsed
 for ever

---
 mabel/data/readers/internals/sql_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index d083183..5799609 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -122,7 +122,7 @@ class SqlParser:
         `valid_dataset_prefixes` parameter on the Reader.
         """
         # start with a letter
-        if not dataset[0].isalpha():
+        if not dataset[:1].isalpha():
             raise InvalidSqlError("Malformed FROM clause - must start with a letter.")
         # can't be attempting path traversal
         if ".." in dataset or "//" in dataset or "--" in dataset:
@@ -164,7 +164,7 @@ class SqlParser:
                 labeler.next()
                 while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
                     labeler.next()
-                if labeler.next_token_value().upper() == "DISTINCT":
+                if labeler.has_next() and labeler.next_token_value().upper() == "DISTINCT":
                     labeler.next()
                     self.distinct = True
                     while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
@@ -174,6 +174,8 @@ class SqlParser:
                 labeler.next()
                 while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
                     labeler.next()
+                if not labeler.has_next():
+                    raise InvalidSqlError("Malformed FROM clause - nothing to read from.")
 
                 if labeler.next_token_type() == TOKENS.LEFTPARENTHESES:
                     # we have a subquery - we're going to collect it based on matching
@@ -224,6 +226,8 @@ class SqlParser:
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From ac2f8549dc1b901d624bede2979d951afa8c35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 057/102] fix: SQL comments joined the words either side of
 them

---
 mabel/data/readers/internals/sql_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 5799609..a976e3f 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -105,7 +105,7 @@ class SqlParser:
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if match.group(2) is not None:
-                return ""  # so we will return empty to remove the comment
+                return " "  # so we will return white space to remove the comment
             else:  # otherwise, we will return the 1st group
                 return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From d3d79233a539f294e997c793abb1a37bd689a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 058/102] fix: ORDER BY did nothing for columns which aren't
 selected

---
 mabel/data/readers/internals/sql_reader.py | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index a976e3f..0ab1667 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -347,20 +347,31 @@ def SqlReader(sql_statement: str, **kwargs):
     if renames:
         reader = DictSet(map(_perform_renames, reader))
 
-    reader = reader.select(sql.select_evaluator.fields())  # type:ignore
-    # distinct now we have only the columns we're interested in
-    if sql.distinct:
-        reader = reader.distinct()
+    fields = sql.select_evaluator.fields()  # type:ignore
 
     # ORDER BY clause
-    if sql.order_by:
+    def _order(rows):
+        column = sql.order_by
+        if column not in fields:
+            column = column.strip("`")
         take = 10000  # the Query UI is currently set to 2000
         if sql.limit is not None:
             take = int(sql.limit)
-        reader = DictSet(
-            reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
+        return DictSet(
+            rows.sort_and_take(column=column, take=take, descending=sql.order_descending)
         )
 
+    # we can order by columns which aren't in the results
+    if sql.order_by and not sql.distinct:
+        reader = _order(reader)
+
+    reader = reader.select(fields)
+    # distinct now we have only the columns we're interested in
+    if sql.distinct:
+        reader = reader.distinct()
+        if sql.order_by:
+            reader = _order(reader)
+
     # LIMIT clause
     if sql.limit is not None:
         reader = reader.take(sql.limit)
-- 
2.43.0


From 7a9a4b8efc0121ed27eb5b2dce25e9ff74c2aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 059/102] fix: LIMIT after ORDER BY without ASC or DESC was
 never parsed

---
 mabel/data/readers/internals/sql_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 0ab1667..7474df0 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -221,7 +221,6 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-- 
2.43.0


From c1a8811b0ecedd1dd0d264106c557822bf88d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 060/102] fix: an empty list of valid dataset prefixes allowed
 every dataset

---
 mabel/data/readers/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index 5cada2c..747be8a 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -147,7 +147,7 @@ def Reader(
     # We can provide an optional whitelist of prefixes that we allow access to
     # - this doesn't replace a proper ACL and permissions model, but can provide
     # some control if other options are limited or unavailable.
-    if valid_dataset_prefixes:
+    if valid_dataset_prefixes is not None:
         if not any([True for prefix in valid_dataset_prefixes if str(dataset).startswith(prefix)]):
             raise AccessDenied("Access has been denied to this Dataset (prefix).")
 
-- 
2.43.0


From 299180ee21c7c1befe1d556027abf5d863d3d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 061/102] fix: get_items order, repeats and asking for no items
 depended on the storage class

---
 mabel/data/internals/dictset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 30ca9d0..fd1e6d6 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -331,13 +331,17 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
+        if not locations:
+            return
         if self.storage_class in (
             STORAGE_CLASS.MEMORY,
             STORAGE_CLASS.DISK,
             STORAGE_CLASS.COMPRESSED_MEMORY,
         ):
-            for r in self._iterator._inner_reader(*locations):
-                yield r
+            # read in the order they're stored, return in the order they're asked for
+            ordered = sorted(set(locations))
+            found = dict(zip(ordered, self._iterator._inner_reader(*ordered)))
+            yield from (found[location] for location in locations)
             return
 
         # if the iterator allows us to access items directly, use that
-- 
2.43.0


From 0d072f2b1ccc754e24c8b6b2ce73a43d47020e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:39 +0000
Subject: [PATCH 062/102] fix: distinct on columns treated missing values as
 the text $$

---
 mabel/data/internals/dictset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index fd1e6d6..bf9ef88 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -301,7 +301,8 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash(repr([item.get(c, "$$") for c in columns]))
+                    # missing values aren't the same as any value
+                    hashed_item = hash(repr([item.get(c, ...) for c in columns]))
                 else:
                     hashed_item = hash(
                         repr(sorted(item.items(), key=lambda entry: str(entry[0])))
-- 
2.43.0


From 09a2b1bc7b175f1e104d380c90ef7410f821d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 063/102] fix: the hash of a DictSet depended on the order of
 keys in nested records

---
 mabel/data/internals/dictset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index bf9ef88..fbd95f0 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -540,8 +540,10 @@ class DictSet(object):
         """
         # The seed is the mission duration of the Apollo 11 mission.
         #   703115 = 8 days, 3 hours, 18 minutes, 35 seconds
-        ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))
-        serialized = map(orjson.dumps, ordered)
+        # the order of the keys, at any level of the record, isn't part of the hash
+        serialized = map(
+            lambda record: orjson.dumps(record, option=orjson.OPT_SORT_KEYS), iter(self._iterator)
+        )
         hashed = map(CityHash64, serialized)
         return reduce(lambda x, y: x ^ y, hashed, seed)
 
-- 
2.43.0


From 69cd54ffef4d82437459f2ef5b29ab89fc4ceb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 064/102] fix: repeated records cancelled each other out of the
 hash of a DictSet

---
 mabel/data/internals/dictset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index fbd95f0..6259407 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -25,6 +25,7 @@ limitations under the License.
 
 import os
 import statistics
+from collections import Counter
 from enum import Enum
 from functools import reduce
 from typing import Any
@@ -544,7 +545,11 @@ class DictSet(object):
         serialized = map(
             lambda record: orjson.dumps(record, option=orjson.OPT_SORT_KEYS), iter(self._iterator)
         )
-        hashed = map(CityHash64, serialized)
+        # how often a record is repeated is hashed, repeats would cancel each other out
+        hashed = (
+            value if repeats == 1 else CityHash64(f"{value}x{repeats}".encode())
+            for value, repeats in Counter(map(CityHash64, serialized)).items()
+        )
         return reduce(lambda x, y: x ^ y, hashed, seed)
 
     def __repr__(self):  # pragma: no cover
-- 
2.43.0


From ab9e90aaa3cc6a5dd0ea51581d22e1a1a7ff7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 065/102] fix: parse_iso didn't read numpy dates finer than
 microseconds

---
 mabel/utils/dates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index f280d0f..0f00b42 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -72,7 +72,8 @@ def parse_iso(
 
         if numpy:
             if isinstance(value, numpy.datetime64):
-                value = value.astype(datetime.datetime)
+                # finer resolutions than microseconds become integers
+                value = value.astype("datetime64[us]").astype(datetime.datetime)
                 input_type = type(value)
 
         if hasattr(value, "to_pydatetime"):
-- 
2.43.0


From 7b5035a4339533666c2d3b29dd4c29d5d586bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 066/102] fix: parse_iso read text with spaces, signs or
 underscores for digits as dates

---
 mabel/utils/dates.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 0f00b42..fe5c3e5 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -40,6 +40,13 @@ def parse_delta(delta: str) -> datetime.timedelta:
     return datetime.timedelta(seconds=0)
 
 
+def _digits(text: str) -> int:
+    """int also allows spaces, signs, underscores and the digits of other scripts"""
+    if not (text.isascii() and text.isdigit()):
+        raise ValueError("not a number")
+    return int(text)
+
+
 def parse_iso(
     value: Union[str, int, float, datetime.datetime, datetime.date],
 ) -> Optional[datetime.datetime]:
@@ -97,7 +104,7 @@ def parse_iso(
                 return None
             if val_len == 10:
                 # YYYY-MM-DD
-                return datetime.datetime(*map(int, [value[:4], value[5:7], value[8:10]]))
+                return datetime.datetime(*map(_digits, [value[:4], value[5:7], value[8:10]]))
             if val_len >= 16:
                 if not (value[10] in ("T", " ") and value[13] in DATE_SEPARATORS):
                     return None
@@ -105,7 +112,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM:SS
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            _digits,
                             [
                                 value[:4],  # YYYY
                                 value[5:7],  # MM
@@ -120,7 +127,7 @@ def parse_iso(
                     # YYYY-MM-DD HH:MM
                     return datetime.datetime(
                         *map(  # type:ignore
-                            int,
+                            _digits,
                             [
                                 value[:4],
                                 value[5:7],
-- 
2.43.0


From c63e33c2cc8d6a78420a534d1aa37b03465aa038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 067/102] fix: years before 1000 weren't padded in paths

---
 mabel/utils/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/paths.py b/mabel/utils/paths.py
index 4e923c9..1efb330 100644
--- a/mabel/utils/paths.py
+++ b/mabel/utils/paths.py
@@ -58,7 +58,7 @@ def date_format(path_string: str, date: datetime.date = None):
 
     path_string = str(path_string)
 
-    path_string = path_string.replace("{yyyy}", f"{date.year}")
+    path_string = path_string.replace("{yyyy}", f"{date.year:04d}")
     path_string = path_string.replace("{mm}", f"{date.month:02d}")
     path_string = path_string.replace("{dd}", f"{date.day:02d}")
     path_string = path_string.replace("{HH}", f"{date.hour:02d}")
-- 
2.43.0


From 081ed12a0fc2389da6b3ad38a423b40c47102f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 068/102] fix: random stems in paths could hold slashes, so add
 folders

---
 mabel/utils/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/paths.py b/mabel/utils/paths.py
index 1efb330..57b3a07 100644
--- a/mabel/utils/paths.py
+++ b/mabel/utils/paths.py
@@ -2,6 +2,7 @@
 Functions to help with handling file paths
 """
 
+import base64
 import datetime
 import errno
 import os
@@ -45,7 +46,7 @@ def build_path(path: str, date: datetime.date = None):
     else:
         path_string = path
 
-    return date_format(path_string, date).replace("{stem}", str(random_string(32)))
+    return date_format(path_string, date).replace("{stem}", random_string(32, base64.urlsafe_b64encode))
 
 
 def date_format(path_string: str, date: datetime.date = None):
-- 
2.43.0


From 11bf2945486b9136d7e3a3ec7d036556b21a88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 069/102] fix: brackets, commas and AS in quoted text broke up
 function calls

---
 mabel/data/readers/internals/inline_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..59c129e 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -24,6 +24,7 @@ import re
 
 from mabel.data.readers.internals.inline_functions import FUNCTIONS
 from mabel.utils.dates import parse_iso
+from mabel.utils.token_labeler import QUOTED
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import get_token_type
 
@@ -229,7 +230,8 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        # brackets, commas and AS in quoted text are part of the text
+        reg = re.compile(r"(" + QUOTED + r"|\(|\)|,|\bAS\b)", re.IGNORECASE)
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From 841bec43944891c9c7c60c155eee2fe4779bde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 070/102] fix: selecting * with functions added a column called
 *

---
 mabel/data/readers/internals/inline_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 59c129e..cab9a56 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -244,6 +244,9 @@ class Evaluator:
             else:
                 builder = dic.copy()
         for field in self.tokens:
+            if field["type"] == TOKENS.EVERYTHING:
+                # these are already in the record
+                continue
             (k, v) = evaluate_field(dic, field)
             builder[k] = v
         return builder
-- 
2.43.0


From 24146f37ea3ec4bac56b04ade84c6b9086f7f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 071/102] fix: HOUR, MINUTE, SECOND, DATE, TIME and DAYSDIFF
 failed for dates without times

---
 mabel/data/readers/internals/inline_functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 145e709..eb1f6a2 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -51,7 +51,7 @@ def get_date(input):
     """
     Convert input to a datetime object and extract the Date part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.date()
@@ -62,7 +62,7 @@ def get_time(input):
     """
     Convert input to a datetime object and extract the Time part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.time()
@@ -84,7 +84,7 @@ def get_hour(input):
     """
     Convert input to a datetime object and extract the Hour part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.hour
@@ -95,7 +95,7 @@ def get_minute(input):
     """
     Convert input to a datetime object and extract the Minute part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.minute
@@ -106,7 +106,7 @@ def get_second(input):
     """
     Convert input to a datetime object and extract the Seconds part
     """
-    if isinstance(input, str):
+    if isinstance(input, (str, datetime.date)):
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.second
@@ -161,9 +161,9 @@ def add_days(start_date, day_count):
 
 
 def diff_days(start_date, end_date):
-    if isinstance(start_date, str):
+    if isinstance(start_date, (str, datetime.date)):
         start_date = parse_iso(start_date)
-    if isinstance(end_date, str):
+    if isinstance(end_date, (str, datetime.date)):
         end_date = parse_iso(end_date)
     if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(
         end_date, (datetime.date, datetime.datetime)
-- 
2.43.0


From 76b42bcc838f8fe49cd2e0c2b86703a04ac6a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 072/102] fix: TRUNC and INTEGER changed integers too big for a
 float

---
 mabel/data/readers/internals/inline_functions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index eb1f6a2..c62328e 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -181,6 +181,18 @@ def parse_number(parser, coerce):
     return inner
 
 
+def exact_number(val):
+    """
+    Floats can't hold all integers, so only use them for values which aren't integers
+    """
+    if isinstance(val, int):
+        return val
+    try:
+        return int(str(val))
+    except ValueError:
+        return float(val)
+
+
 def get_md5(item):
     import hashlib
 
@@ -216,8 +228,8 @@ FUNCTIONS = {
     "CONCAT": concat,
     # NUMBERS
     "ROUND": round,
-    "TRUNC": parse_number(float, trunc),
-    "INTEGER": parse_number(float, int),
+    "TRUNC": parse_number(exact_number, trunc),
+    "INTEGER": parse_number(exact_number, int),
     "DOUBLE": parse_number(float, float),
     # BOOLEAN
     "BOOLEAN": lambda x: str(x).upper() != "FALSE",
-- 
2.43.0


From 61590ffc9e78d3080026a21a04e2f350f5d25942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 073/102] fix: flatten keeps leaves below empty keys and keys
 which aren't text

---
 mabel/data/internals/records.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index b58fae7..32eb50b 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -74,18 +74,18 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
     Returns:
         A flattened dictionary
     """
-    items = []
-    for key, value in dictionary.items():
-        new_key = str(parent_key) + separator + key if parent_key else key
-        if hasattr(value, "items"):
-            items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
-        elif isinstance(value, list):
-            for k, v in enumerate(value):
-                items.extend(
-                    flatten(
-                        dictionary={str(k): v}, separator=separator, parent_key=new_key
-                    ).items()
-                )
-        else:
-            items.append((new_key, value))
-    return dict(items)
+
+
+    def _flatten(dictionary, prefix):
+        for key, value in dictionary.items():
+            # keys without a parent are left as they are
+            new_key = key if prefix is None else f"{prefix}{separator}{key}"
+            if hasattr(value, "items"):
+                yield from _flatten(value, str(new_key))
+            elif isinstance(value, list):
+                for k, v in enumerate(value):
+                    yield from _flatten({str(k): v}, str(new_key))
+            else:
+                yield new_key, value
+
+    return dict(_flatten(dictionary, parent_key or None))
-- 
2.43.0


From 9a4d2d755804781a18dfff3d2cc12cf97ae45b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 074/102] fix: a finalized DatabaseWriter isn't finalized again
 when it's deleted

---
 mabel/data/writers/database_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/database_writer.py b/mabel/data/writers/database_writer.py
index b88b97e..3cf9cdf 100644
--- a/mabel/data/writers/database_writer.py
+++ b/mabel/data/writers/database_writer.py
@@ -98,6 +98,7 @@ class DatabaseWriter:
             de.evaluate_record(self.expectations, record)
 
         self.wal.append(record)
+        self.finalized = False
         self.records_in_buffer += 1
         self.records += 1
         # if this write would exceed the blob size, close it
@@ -157,9 +158,11 @@ class DatabaseWriter:
         finally:
             lock.release()
 
+        self.finalized = True
         return self.records
 
     def __del__(self):
         # this should never be relied on to save data
-        self.commit()
-        self.finalize()
+        if hasattr(self, "wal") and not self.finalized:
+            self.commit()
+            self.finalize()
-- 
2.43.0


From 026b5c1295c3e636c5ae21fcbd3efca08f18fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 075/102] fix: loading a schema doesn't change the caller's
 definition

---
 mabel/data/validator/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/validator/__init__.py b/mabel/data/validator/__init__.py
index a1ad905..a50fe5c 100644
--- a/mabel/data/validator/__init__.py
+++ b/mabel/data/validator/__init__.py
@@ -31,6 +31,7 @@ def schema_loader(
             definition = orjson.loads(definition)  # type:ignore
 
     if isinstance(definition, dict):
+        definition = definition.copy()
         if definition.get("fields"):  # type:ignore
             definition["columns"] = definition.pop("fields")  # type:ignore
 
-- 
2.43.0


From ab970b1d22d0c1f1bec8c54f83b3d60ecb23089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 076/102] fix: many columns can be selected from a
 sub-collection

---
 mabel/data/internals/collected_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index d71e77d..45fb719 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(list(item)))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From f1d69d943ae134c666b62f03b4e4700a0b0f5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 077/102] fix: deduped collections accept any values and keep
 values of other types

---
 mabel/data/internals/collected_set.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 45fb719..924b4c4 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -32,9 +32,7 @@ class CollectedSet:
             key = my_item.pop(column, None)
             collections.setdefault(key, []).append(my_item)
         if dedupe:
-            collections = {
-                k: {frozenset(i.items()): i for i in v}.values() for k, v in collections.items()
-            }
+            collections = {k: list(DictSet(v).distinct()) for k, v in collections.items()}
 
         self._collections = collections
 
-- 
2.43.0


From 93888c6a0073a5400354c92cdd243804caf8cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 078/102] fix: histograms of one bin, of generators, of no
 values and of one large value

---
 mabel/data/internals/histogram.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mabel/data/internals/histogram.py b/mabel/data/internals/histogram.py
index 225ce65..2c52caa 100644
--- a/mabel/data/internals/histogram.py
+++ b/mabel/data/internals/histogram.py
@@ -7,14 +7,16 @@ class Histogram:
     def __init__(self, values, *, key: str, number_of_bins: int = 10):
         if isinstance(values, DictSet):
             values = values.collect_list(key)
+        values = list(values)
 
         self.bins = [0] * number_of_bins
-        mn = min(values)
-        mx = max(values)
-        interval = ((1 + mx) - mn) / (number_of_bins - 1)
+        mn = min(values, default=0)
+        mx = max(values, default=0)
+        # the interval is nothing when large values are all the same
+        interval = ((1 + mx) - mn) / max(number_of_bins - 1, 1) or 1
 
         for v in values:
-            self.bins[int((v - mn) / interval)] += 1
+            self.bins[min(int((v - mn) / interval), number_of_bins - 1)] += 1
 
     def __repr__(self):
         """
-- 
2.43.0


From 2f0eeea5bd8fc45ca4914dcdddd6c8414da2f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 079/102] fix: values which can't be printed don't break the
 error stack

---
 mabel/errors/render_error_stack.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 2b3aa5b..ce08123 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -60,6 +60,13 @@ def bar_label(label):
         return "-" * LINE_LENGTH
 
 
+def _as_text(value):
+    try:
+        return f"{value}"
+    except Exception:
+        return f"<unprintable {type(value).__name__}>"
+
+
 def _build_error_stack():
     exc_type, exc_value, traceback = sys.exc_info()
 
@@ -71,7 +78,7 @@ def _build_error_stack():
     is_cause = False
 
     while True:
-        stack = Stack(exc_type=str(exc_type.__name__), exc_value=str(exc_value), is_cause=is_cause)
+        stack = Stack(exc_type=str(exc_type.__name__), exc_value=_as_text(exc_value), is_cause=is_cause)
 
         stacks.append(stack)
         append = stack.frames.append
@@ -114,7 +121,7 @@ def _render_locals(locals):
         yield bar_label("locals")
         max_label_len = max([len(key) for key, value in locals.items()])
         for key, value in locals.items():
-            yield f"  {key:<{max_label_len}} : {value}"
+            yield f"  {key:<{max_label_len}} : {_as_text(value)}"
 
 
 def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
-- 
2.43.0


From cc9e72dc6ec65d1b02973ab6aca8d61f8401daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 080/102] fix: the error stack of errors which cause each other
 ends

---
 mabel/errors/render_error_stack.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index ce08123..025a073 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -76,8 +76,10 @@ def _build_error_stack():
 
     stacks = []
     is_cause = False
+    seen = []
 
     while True:
+        seen.append(exc_value)
         stack = Stack(exc_type=str(exc_type.__name__), exc_value=_as_text(exc_value), is_cause=is_cause)
 
         stacks.append(stack)
@@ -95,7 +97,7 @@ def _build_error_stack():
             append(frame)
 
         cause = getattr(exc_value, "__cause__", None)
-        if cause and cause.__traceback__:
+        if cause is not None and not any(cause is e for e in seen) and cause.__traceback__:
             exc_type = cause.__class__
             exc_value = cause
             traceback = cause.__traceback__
@@ -104,7 +106,12 @@ def _build_error_stack():
                 continue
 
         cause = exc_value.__context__
-        if cause and cause.__traceback__ and not getattr(exc_value, "__suppress_context__", False):
+        if (
+            cause is not None
+            and not any(cause is e for e in seen)
+            and cause.__traceback__
+            and not getattr(exc_value, "__suppress_context__", False)
+        ):
             exc_type = cause.__class__
             exc_value = cause
             traceback = cause.__traceback__
-- 
2.43.0


From 95e5bc9d528ec4709594022cd0d68aefafb06735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 081/102] fix: the error stack doesn't show the last line of a
 file as its line 0

---
 mabel/errors/render_error_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 025a073..6dbb6d8 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -137,7 +137,7 @@ def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
             code = code_file.read()
 
         lines = code.splitlines()
-        start_line = max(line - extend_by, 0)
+        start_line = max(line - extend_by, 1)
         end_line = min(line + extend_by + 1, len(lines) + 1)
 
         path = pathlib.Path(filename)
-- 
2.43.0


From edb8c32e78493141161890bb51027dde0bd529f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 082/102] fix: the error stack shows the right line of code
 after a form feed

---
 mabel/errors/render_error_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/errors/render_error_stack.py b/mabel/errors/render_error_stack.py
index 6dbb6d8..d225531 100644
--- a/mabel/errors/render_error_stack.py
+++ b/mabel/errors/render_error_stack.py
@@ -134,9 +134,9 @@ def _render_locals(locals):
 def _read_from_code(filename: str, line: int, extend_by: int) -> Generator:
     try:
         with open(filename, "rt", encoding="utf-8") as code_file:
-            code = code_file.read()
+            # only line feeds end lines of code
+            lines = [code.rstrip("\n") for code in code_file]
 
-        lines = code.splitlines()
         start_line = max(line - extend_by, 1)
         end_line = min(line + extend_by + 1, len(lines) + 1)
 
-- 
2.43.0


From 04f48636f4577f2c892c3879521c5f704deee399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 083/102] fix: freshness_limit steps back over days with files
 which aren't data

---
 mabel/data/readers/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index 747be8a..d808d95 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -200,6 +200,14 @@ def Reader(
     )
 
 
+def _is_readable(blob):
+    """is this blob data, and in a format we can read"""
+    extension = f".{blob.split('.')[-1]}"
+    return (
+        extension in KNOWN_EXTENSIONS and KNOWN_EXTENSIONS[extension][2] == EXTENSION_TYPE.DATA
+    )
+
+
 class _LowLevelReader(object):
     def __init__(
         self,
@@ -237,7 +245,7 @@ class _LowLevelReader(object):
 
         # Handle stepping back if the option is set
         if self.freshness_limit > datetime.timedelta(seconds=1):
-            while not bool(blob_list) and self.freshness_limit >= datetime.timedelta(
+            while not any(map(_is_readable, blob_list)) and self.freshness_limit >= datetime.timedelta(
                 days=self.reader_class.days_stepped_back
             ):
                 self.reader_class.step_back_a_day()
-- 
2.43.0


From f4f79b0f17588465518b551b6e999f8ed04c0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 084/102] fix: configuration files which aren't objects are
 reported as incorrectly formatted

---
 mabel/utils/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/utils/common.py b/mabel/utils/common.py
index 3112b24..f4ee253 100644
--- a/mabel/utils/common.py
+++ b/mabel/utils/common.py
@@ -17,6 +17,8 @@ def build_context(**kwargs: dict):
             get_logger().debug(f"Reading configuration from `{file_location}`.")
             with open(file_location, "r") as f:
                 config = orjson.loads(f.read())
+            if not isinstance(config, dict):
+                raise ValueError("a configuration is an object")
             return config
         except IndexError as e:
             raise IndexError(f"Error: {e}, Likely Cause: Config file `{config_file}` not found")
-- 
2.43.0


From f97737511ec59255b43a8b3eb7fdf08792a63b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 085/102] fix: the credentials given to the Google Cloud
 Storage reader are used

---
 mabel/adapters/google/google_cloud_storage_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mabel/adapters/google/google_cloud_storage_reader.py b/mabel/adapters/google/google_cloud_storage_reader.py
index 4f5d735..aa9e62b 100644
--- a/mabel/adapters/google/google_cloud_storage_reader.py
+++ b/mabel/adapters/google/google_cloud_storage_reader.py
@@ -18,6 +18,8 @@ except ImportError:  # pragma: no cover
 
 
 class GoogleCloudStorageReader(BaseInnerReader):
+    RULES = [{"name": "credentials", "required": False, "warning": None, "incompatible_with": []}]
+
     def __init__(self, credentials=None, **kwargs):
         if not google_cloud_storage_installed:  # pragma: no cover
             raise MissingDependencyError(
@@ -32,6 +34,7 @@ class GoogleCloudStorageReader(BaseInnerReader):
         blob = get_blob(
             bucket=bucket,
             blob_name=object_path + name + extension,
+            credentials=self.credentials,
         )
         stream = blob.download_as_bytes()
         return stream
@@ -43,7 +46,7 @@ class GoogleCloudStorageReader(BaseInnerReader):
         if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
             client = storage.Client(credentials=AnonymousCredentials())
         else:  # pragma: no cover
-            client = storage.Client()
+            client = storage.Client(credentials=self.credentials)
 
         gcs_bucket = client.get_bucket(bucket)
         blobs = list(client.list_blobs(bucket_or_name=gcs_bucket, prefix=object_path))
@@ -51,12 +54,12 @@ class GoogleCloudStorageReader(BaseInnerReader):
         yield from [bucket + "/" + blob.name for blob in blobs if not blob.name.endswith("/")]
 
 
-def get_blob(bucket: str = None, blob_name: str = None):
+def get_blob(bucket: str = None, blob_name: str = None, credentials=None):
     # this means we're testing
     if os.environ.get("STORAGE_EMULATOR_HOST") is not None:
         client = storage.Client(credentials=AnonymousCredentials())
     else:  # pragma: no cover
-        client = storage.Client()
+        client = storage.Client(credentials=credentials)
 
     gcs_bucket = client.get_bucket(bucket)
     blob = gcs_bucket.get_blob(blob_name)
-- 
2.43.0


From ed323030347390a3b4c7b23942f745a8966cea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 086/102] fix: ORDER BY without a LIMIT has all of the rows in
 its results

---
 mabel/data/readers/internals/sql_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 7474df0..50ae5be 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -17,6 +17,7 @@ LIMIT clause
 """
 
 import re
+import sys
 from typing import Optional
 
 from orso.logging import get_logger
@@ -353,7 +354,7 @@ def SqlReader(sql_statement: str, **kwargs):
         column = sql.order_by
         if column not in fields:
             column = column.strip("`")
-        take = 10000  # the Query UI is currently set to 2000
+        take = sys.maxsize  # without a LIMIT, all of the rows are in the results
         if sql.limit is not None:
             take = int(sql.limit)
         return DictSet(
-- 
2.43.0


From 9adf58acdf710faa31c995392cf0878030755b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:22 +0000
Subject: [PATCH 087/102] fix: a HTML table with a limit of zero shows no rows

---
 mabel/data/internals/display.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index 24d02ca..acdc4e7 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -1,3 +1,4 @@
+from itertools import islice
 from typing import Any
 from typing import Dict
 from typing import Iterable
@@ -55,11 +56,9 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
     rows = []
     columns = []  # type:ignore
     i = -1
-    for i, row in enumerate(iter(dictset)):
+    for i, row in enumerate(dictset if limit is None or limit < 0 else islice(dictset, limit)):
         rows.append(row)
         columns = columns + list(row.keys())
-        if (i + 1) == limit:
-            break
     columns = set(columns)  # type:ignore
 
     import types
-- 
2.43.0


From f9f4ae9aa089f75eb642e319cfb6ba3444dc6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:37 +0000
Subject: [PATCH 088/102] fix: a sample is of the fraction asked for

---
 mabel/data/internals/dictset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 6259407..309a303 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -144,10 +144,9 @@ class DictSet(object):
         """
 
         def inner_sampler(dictset):
-            selector = int(1 / fraction)
             for row in dictset:
-                random_value = int.from_bytes(os.urandom(2), "big")
-                if random_value % selector == 0:
+                random_value = int.from_bytes(os.urandom(4), "big") / 2**32
+                if random_value < fraction:
                     yield row
 
         return DictSet(inner_sampler(iter(self._iterator)), storage_class=self.storage_class)
-- 
2.43.0


From 011fd640cb3a1f2f0e194a5b5d9dfcd046b31880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 089/102] fix: zip members with the same name are each read

---
 mabel/data/readers/internals/decompressors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index 70c94af..c93cd09 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -39,8 +39,10 @@ def unzip(stream):
     from .parallel_reader import KNOWN_EXTENSIONS
 
     with zipfile.ZipFile(stream, "r") as zip:
-        for file_name in zipfile.ZipFile.namelist(zip):
-            file = zip.read(file_name)
+        # members can have the same name, so they're not read by it
+        for member in zip.infolist():
+            file_name = member.filename
+            file = zip.read(member)
             # get the extention of the file(s) in the ZIP and put them
             # through a secondary decompressor and parser
             ext = "." + file_name.split(".")[-1]
-- 
2.43.0


From 93a8fd0220ec08622771b56bfc0809fa656effb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 090/102] fix: csv values can be of any length

---
 mabel/data/readers/internals/decompressors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/readers/internals/decompressors.py b/mabel/data/readers/internals/decompressors.py
index c93cd09..5cea382 100644
--- a/mabel/data/readers/internals/decompressors.py
+++ b/mabel/data/readers/internals/decompressors.py
@@ -83,5 +83,8 @@ def csv(stream):
     import csv
     import io
 
+    # there's no limit to how long a value can be
+    csv.field_size_limit(2**31 - 1)
+
     # csv needs to find the ends of the lines, they may be in quoted values
     yield from csv.DictReader(io.StringIO(stream.read().decode("utf8"), newline=""))
-- 
2.43.0


From 044cf84fd602c3ecf61248c5edf9afbcdc0a9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 091/102] fix: multiprocess reads which take long are read to
 their end

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index e9b89bd..3b97c19 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -115,6 +115,8 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
         try:
             records = reply_queue.get(timeout=1)
             yield from map(json, [r for r in lz4.frame.decompress(records).split(b"\n") if r])
+            # the time taken over the records isn't time the processes ran for
+            process_start_time = time.time()
             if item_index < len(items_to_read):
                 send_queue.put_nowait(items_to_read[item_index])
                 item_index += 1
-- 
2.43.0


From 06cecfd30e6034ec68c160dfaec6075dc4478476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 092/102] fix: processes which share a writer don't overwrite
 each other's blobs

---
 mabel/data/writers/internals/base_inner_writer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 9cfc984..66f2925 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -11,7 +11,6 @@ import itertools
 import os
 import time
 import uuid
-from functools import lru_cache
 
 from mabel.utils import paths
 
@@ -43,7 +42,6 @@ class BaseInnerWriter(abc.ABC):
         blob_id = f"{time.time_ns():x}-{self._get_node()}-{next(SEQUENCE):06x}"
         return self.filename.replace(STEM, f"{blob_id}")
 
-    @lru_cache(1)
     def _get_node(self):
         return f"{uuid.getnode():x}-{os.getpid():x}"
 
-- 
2.43.0


From 18310d37474bc13998982e0902881549d5b1e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 093/102] fix: quotes and comment marks in backticks are part
 of the name

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 50ae5be..7d93ab1 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -97,8 +97,8 @@ class SqlParser:
         return _RE_COMBINE_WHITESPACE.sub(lambda match: match.group(1) or " ", string).strip()
 
     def remove_comments(self, string):
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-        # first group captures quoted strings (double or single)
+        pattern = r"(" + QUOTED + r")|(/\*.*?\*/|--[^\r\n]*$)"
+        # first group captures quoted strings (double, single or backticks)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
 
-- 
2.43.0


From 82cad68e996471c3325a6618bbad3820647d6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 094/102] fix: SQL statements with mismatched parentheses are
 refused

---
 mabel/data/readers/internals/sql_reader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 7d93ab1..fff40b8 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -155,6 +155,17 @@ class SqlParser:
         clean = self.clean_statement(clean)
         # split into bits by SQL keywords
         parts = self.sql_parts(clean)
+        # parentheses must be closed in the clause they were opened in
+        open_parentheses = 0
+        for part in parts:
+            if part == "(":
+                open_parentheses += 1
+            elif part == ")":
+                open_parentheses -= 1
+            if open_parentheses < 0:
+                break
+        if open_parentheses != 0:
+            raise InvalidSqlError("Invalid statement - mismatched parenthesis.")
         # put into a token labeller
         labeler = Tokenizer(parts)
 
-- 
2.43.0


From 3f7048a675a8923ea952e65110cdadf0bfe0623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 095/102] fix: SQL statements which repeat a clause are refused

---
 mabel/data/readers/internals/sql_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index fff40b8..be66dca 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -168,8 +168,13 @@ class SqlParser:
             raise InvalidSqlError("Invalid statement - mismatched parenthesis.")
         # put into a token labeller
         labeler = Tokenizer(parts)
+        clauses = set()
 
         while labeler.has_next():
+            if labeler.peek().upper() in clauses:
+                raise InvalidSqlError(f"Invalid statement - repeated `{labeler.peek()}`.")
+            clauses.add(labeler.peek().strip().upper() or None)
+
             if labeler.peek().strip() == "":
                 labeler.next()
             elif labeler.peek().upper() == "SELECT":
-- 
2.43.0


From 8f0632241d9584f8b3573f9e64cf8c99515e75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 096/102] fix: LIMITs which aren't whole numbers are refused as
 invalid SQL

---
 mabel/data/readers/internals/sql_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index be66dca..7b30a5f 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -241,7 +241,10 @@ class SqlParser:
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-                self.limit = int(self.collector(labeler))
+                limit = self.collector(labeler)
+                if not limit.isdecimal():
+                    raise InvalidSqlError("Malformed LIMIT clause - must be a whole number.")
+                self.limit = int(limit)
             else:
                 raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
-- 
2.43.0


From 016b58c4ec2dec120023dc40c4b3a40d29b5e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 097/102] fix: SQL groups and aggregates of functions and
 quoted columns

---
 mabel/data/readers/internals/sql_reader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 7b30a5f..17b21fb 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -285,6 +285,16 @@ def SqlReader(sql_statement: str, **kwargs):
     elif sql.select_expression != "*":
         actual_select = sql.select_expression + ", *"
 
+    # the expressions which are grouped by, or aggregated, may not be selected
+    expressions = []
+    if sql.group_by:
+        expressions.append(sql.group_by)
+    for t in sql.select_evaluator.tokens:  # type:ignore
+        if t["type"] == TOKENS.AGGREGATOR and t["parameters"][0]["type"] != TOKENS.EVERYTHING:
+            expressions.append(get_function_name(t["parameters"][0]))
+    if expressions:
+        actual_select = ", ".join(expressions + [actual_select])
+
     reducer = None
     if sql.select_expression == "COUNT(*)":
         reducer = lambda x: {"*": "*"}
@@ -320,7 +330,7 @@ def SqlReader(sql_statement: str, **kwargs):
 
         # convert the clause into something we can pass to GroupBy
         if sql.group_by:
-            groups = [group.strip() for group in sql.group_by.split(",") if group.strip() != ""]
+            groups = Evaluator(sql.group_by).fields()
         else:
             groups = ["*"]  # we're not really grouping
 
@@ -328,7 +338,7 @@ def SqlReader(sql_statement: str, **kwargs):
         renames = []
         for t in sql.select_evaluator.tokens:  # type:ignore
             if t["type"] == TOKENS.AGGREGATOR:
-                aggregations.append((t["value"], t["parameters"][0]["value"]))
+                aggregations.append((t["value"], get_function_name(t["parameters"][0])))
                 if t["as"]:
                     t["raw"] = get_function_name(t)
                     renames.append(t)
-- 
2.43.0


From fe0adb31286d087bc2564cb3e749f9981c6e7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:33 +0000
Subject: [PATCH 098/102] fix: functions which aren't grouped by are refused in
 grouped SQL

---
 mabel/data/readers/internals/sql_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 17b21fb..73dbd5a 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -342,7 +342,11 @@ def SqlReader(sql_statement: str, **kwargs):
                 if t["as"]:
                     t["raw"] = get_function_name(t)
                     renames.append(t)
-            elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups:
+            elif (t["type"] == TOKENS.VARIABLE and t["value"] not in groups) or (
+                t["type"] == TOKENS.FUNCTION
+                and get_function_name(t) not in groups
+                and t["as"] not in groups
+            ):
                 raise InvalidSqlError(
                     "Invalid SQL - SELECT clause in a statement with a GROUP BY clause must be made of aggregations or items from the GROUP BY clause."
                 )
-- 
2.43.0


From 3c08e77bd28a80d984b10f74ea88bfe1d707175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:08 +0000
Subject: [PATCH 099/102] fix: expressions with something left over, or
 missing, are refused

---
 mabel/data/internals/expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 9629b08..9389a80 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -50,7 +50,13 @@ class Expression(object):
         self.parse()
 
     def parse(self):
-        self.root = self.parse_expression()
+        try:
+            self.root = self.parse_expression()
+        except IndexError:
+            raise InvalidExpression("Unexpected end of the expression") from None
+        if self.tokenizer.has_next():
+            # don't ignore the rest of the expression
+            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def parse_expression(self):
         andTerm1 = self.parse_and_term()
-- 
2.43.0


From 22ca015c18830f6118e1404ba75dd2fd181eacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:09 +0000
Subject: [PATCH 100/102] fix: SQL results have the booleans and nulls which
 are selected

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index cab9a56..d40eb7b 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -72,7 +72,8 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
                 if token["as"]:
                     yield token["as"]
-- 
2.43.0


From e26b301756a7744aca460bc18ee6ce3649875d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:09 +0000
Subject: [PATCH 101/102] fix: StreamWriter appends models which only have
 model_dump

---
 mabel/data/writers/stream_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 25ee833..18030a9 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -110,10 +110,10 @@ class StreamWriter(Writer):
 
         if hasattr(record, "dict"):
             record = record.dict()
-        if hasattr(record, "dump_model"):
-            record = record.dump_model()
+        if hasattr(record, "model_dump"):
+            record = record.model_dump()
 
-        elif self.schema:
+        if self.schema:
             try:
                 self.schema.validate(record)
             except Exception as e:
-- 
2.43.0


From 43b707280eb439873feb251b5ce06b2ae0df61df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:09 +0000
Subject: [PATCH 102/102] fix: XML elements with the same name in different
 namespaces are all read

---
 mabel/data/internals/xmler.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/mabel/data/internals/xmler.py b/mabel/data/internals/xmler.py
index da888f0..fc57db1 100644
--- a/mabel/data/internals/xmler.py
+++ b/mabel/data/internals/xmler.py
@@ -6,46 +6,35 @@ from collections import defaultdict
 from xml.etree import cElementTree as ElementTree  # nosec
 
 
-def strip_namespace(entry):
-    if isinstance(entry, dict):
-        for k in [k for k in entry.keys() if k.startswith("{")]:
-            k2 = k.split("}", 1)[1]
-            entry[k2] = entry.pop(k)
-        for k in [k for k in entry.keys() if k.startswith("@{")]:
-            k2 = k.split("}", 1)[1]
-            entry[f"@{k2}"] = entry.pop(k)
-        for child in entry:
-            if isinstance(entry[child], (list, dict)):
-                strip_namespace(entry[child])
-    if isinstance(entry, list):
-        for child in entry:
-            if isinstance(child, (list, dict)):
-                strip_namespace(child)
+def strip_namespace(name):
+    # elements are named `{namespace}name`, strip before collecting the children, they
+    # can have the same name in different namespaces
+    return name.split("}", 1)[1] if name.startswith("{") else name
 
 
 def etree_to_dict(t):
-    d = {t.tag: {} if t.attrib else None}
+    tag = strip_namespace(t.tag)
+    d = {tag: {} if t.attrib else None}
     children = list(t)
     if children:
         dd = defaultdict(list)
         for dc in map(etree_to_dict, children):
             for k, v in dc.items():
                 dd[k].append(v)
-        d = {t.tag: {k: v[0] if len(v) == 1 else v for k, v in dd.items()}}
+        d = {tag: {k: v[0] if len(v) == 1 else v for k, v in dd.items()}}
     if t.attrib:
-        d[t.tag].update(("@" + k, v) for k, v in t.attrib.items())
+        d[tag].update(("@" + strip_namespace(k), v) for k, v in t.attrib.items())
     if t.text:
         text = t.text.strip()
         if children or t.attrib:
             if text:
-                d[t.tag]["#text"] = text
+                d[tag]["#text"] = text
         else:
-            d[t.tag] = text
+            d[tag] = text
     return d
 
 
 def parse(xml_string):
     tree = ElementTree.XML(xml_string)
     dictionary = etree_to_dict(tree)
-    strip_namespace(dictionary)
     return dictionary
-- 
2.43.0

