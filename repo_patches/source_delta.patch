From 0ac8032caefbf91483e69f5d78d89aeebaaa8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 01/94] fix: iterate groups completely whatever their keys and
 values are

Falsy keys or values ended iterkeys/itervalues/iteritems early, and
itervalues required its values to be orderable and never None.
---
 citrine/storage/group.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..322e35f 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -392,7 +392,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(v is not None for v in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -417,23 +417,7 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return (value for key, value in self.iteritems(min, max))
 
     def items(self):
         """
@@ -461,7 +445,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(k is not None for k in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From 0a657c65fd59b54dcfe48330f5f948c2475eabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 02/94] fix: find the extreme keys of a group although some
 collections have none

minKey, maxKey and popitem raised ValueError whenever any one collection
of the group was empty.
---
 citrine/storage/group.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 322e35f..97d83cc 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -478,8 +478,7 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        return maximum(self.__extreme_keys(Collection.maxKey, max))
 
     def minKey(self, min=None):
         """
@@ -488,8 +487,15 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        return minimum(self.__extreme_keys(Collection.minKey, min))
+
+    def __extreme_keys(self, fn, limit):
+        # collections without a suitable key raise a ValueError
+        for collection in self.collections:
+            try:
+                yield fn(collection, limit)
+            except ValueError:
+                continue
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From cbb131a70840ce6fe0fb1f2da990fee1230a7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 03/94] fix: do not refuse to insert a key a full collection
 already stores

---
 citrine/storage/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..0f4ffa7 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From 5da8985f763de94ec00b4ff6d0f97ff706e45513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/94] fix: enforce the strict size limit in
 Collection.setdefault

---
 citrine/storage/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 0f4ffa7..afbfdc5 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -193,7 +193,14 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
+            raise CollectionCapacityError(
+                f'Cannot set default for "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From e7d82a7cd3f97ff46c4e34c36096b87e1ac12ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 05/94] fix: create strict groups when Group.new is asked for
 one

---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 97d83cc..29eb56e 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From a4effe83360dd2dacfce392a7d70feed37739d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 06/94] fix: apply a group update completely or not at all

---
 citrine/storage/group.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 29eb56e..3a46d93 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, CollectionCapacityError
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -332,6 +332,16 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # check every collection before writing to any of them, a refused
+        # update must not be partially applied
+        for index, collection in split_collection.items():
+            target = self.collections[index]
+            new_keys = [key for key in collection if not target.has_key(key)]
+            if target.strict and target.size + len(new_keys) > target.max_size:
+                raise CollectionCapacityError(
+                    'Cannot update group; maximum collection size reached!'
+                )
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From 39d19c4591c647299245efd0026c5cfd547d7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 07/94] fix: read falsy objects back from a container

---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 450a0005ab507241423cc47c0dc0c7dbfc9851ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 08/94] fix: delete an id only from the groups that hold it

---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..d2f901a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From 2a32f2951c6005df6b3241d78694b1daea1cb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 09/94] fix: look up objects in the primary group of a
 container first

---
 citrine/storage/container.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d2f901a..55d7de8 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -188,6 +188,11 @@ class Container(Persistent, ContainerProperties):
         self.___groups___ = groups
         if self.primary not in self.groups:
             self.___groups___ = (self.primary,) + self.groups
+        elif self.primary is not self.groups[0]:
+            # objects are written to the primary group, so reading has to look
+            # there first
+            self.___groups___ = (self.primary,) + tuple(
+                group for group in groups if group is not primary_group)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From 1609695db8bcaa611316a3c7e0e34b1e8bcd2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 10/94] fix: keep the object when condensing cannot insert it

---
 citrine/storage/container.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 55d7de8..11fb4f7 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -326,10 +326,11 @@ class Container(Persistent, ContainerProperties):
         """
         source_groups = self.groups[1:]
 
-        if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
-        else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+        def fn(group, key):
+            # insert before removing; the insert may be refused
+            self.primary.insert(key, group.get(key))
+            if transfer:
+                group.pop(key)
 
         if transaction_manager:
             with transaction_manager as tm:
-- 
2.43.0


From d2d1bb97589950624b571aff024be8ac849ba5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 11/94] fix: keep the secondary groups in place while a
 container is resized

---
 citrine/storage/container.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 11fb4f7..7efd69a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -295,13 +295,10 @@ class Container(Persistent, ContainerProperties):
             removed = self.condense(transfer=transfer,
                                     transaction_manager=transaction_manager)
         else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # only move over the data from the old primary; all other groups
+            # stay in place, even if the operation fails part-way
+            removed = self.__condense(self.groups[1:2], transfer,
+                                      transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -324,8 +321,9 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self.__condense(self.groups[1:], transfer, transaction_manager)
 
+    def __condense(self, source_groups, transfer, transaction_manager):
         def fn(group, key):
             # insert before removing; the insert may be refused
             self.primary.insert(key, group.get(key))
@@ -344,13 +342,15 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            discarded = list(source_groups)
+            remaining = tuple(group for group in self.groups
+                              if group not in discarded)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
+                self.___groups___ = remaining
             return discarded
         return []
 
-- 
2.43.0


From 7f9b04598b3cb772e095a0cc880213eba069cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 12/94] fix: restore the autocommit setting after a transaction
 block

---
 citrine/connection/container_connection.py |  1 -
 citrine/storage/transaction.py             | 10 ++++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..0f6abae 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -250,5 +250,4 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         :param exc_val:
         :param exc_tb:
         """
-        self.autocommit = True
         return self.transaction_manager.__exit__(exc_type, exc_val, exc_tb)
\ No newline at end of file
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..c13a5c3 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -18,23 +18,26 @@ class TransactionManager(ZoTransactionManager):
     def __init__(self, explicit=False):
         super().__init__(explicit=explicit)
         self.autocommit = True
+        self.outer_autocommit = []
         self.logger = logging.getLogger('CTransManager')
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        self.outer_autocommit.append(self.autocommit)
         self.autocommit = False
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        # restored first, so that a failing commit cannot prevent it
+        self.autocommit = self.outer_autocommit.pop()
         if exc_val is None:
             self.commit()
             self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
         else:
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
         self.transaction_uuid = None
 
 
@@ -47,23 +50,26 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
     def __init__(self):
         super().__init__()
         self.autocommit = True
+        self.outer_autocommit = []
         self.logger = logging.getLogger('CTransManager')
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        self.outer_autocommit.append(self.autocommit)
         self.autocommit = False
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        # restored first, so that a failing commit cannot prevent it
+        self.autocommit = self.outer_autocommit.pop()
         if exc_val is None:
             self.commit()
             self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
         else:
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
         self.transaction_uuid = None
 
 
-- 
2.43.0


From db9568b3d4e68fb1a68b6f51ea1b1ebdd38fa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 13/94] fix: switch autocommit off when a connection is created
 without it

---
 citrine/connection/container_connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 0f6abae..a24ff14 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -159,6 +159,8 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
+        if not autocommit:
+            self.transaction_manager.autocommit = False
         self.open(self.transaction_manager)
 
         self.___root___ = self.root
-- 
2.43.0


From 5f6ce85a73109885e2c6eb8b0e221f675228a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 14/94] fix: return lists of falsy objects instead of raising
 KeyError

---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index a24ff14..7bbceea 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -234,8 +234,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From b0dfea0c345c151c47265c597312817547ad0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 15/94] fix: stop generating primes at the maximum

---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..534eba5 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while max is None or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From 6b752af20db035366c12107ace990ead54653421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 16/94] fix: create strict container databases when asked for
 one

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 7496f00597e2555a0f411acdd409f8088b5a4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 17/94] fix: raise the duplicate id error of group reads

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..7d096e2 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From a03022fd93479405465466a7e0dabfb39db3d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 18/94] fix: report multiple results of group reads

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 7d096e2..f168301 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From 8b4462daca1cf15c1b19102d56ce19cd2acfa2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 19/94] fix: make group reads with a time limit work

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index f168301..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 4decc1013ba0cc38d54288b15506c398f6548a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 20/94] fix: prefer the connection arguments given for a
 database in group reads

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..b62e6f1 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, default)
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From ed2df2b901b789016e8feac4bece9da0f04b215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 21/94] fix: use the module mapping handed to the cluster
 registry even if it is empty

---
 citrine/cluster_tools/clusterdb/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..06bee3e 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -40,7 +40,8 @@ class ClusterRegistryContainer(Persistent):
 
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
-        self.modules = modules if modules else PersistentMapping()
+        self.modules = modules if modules is not None else \
+            PersistentMapping()
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 3bedc7eb5a9ce781fd06421979b21960f77bd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 22/94] fix: keep objects readable when a DbContainer is
 expanded

---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..7577466 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -119,10 +119,14 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        previous = self.containers
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        # the number of containers decides where an object is looked up
+        for container in previous.values():
+            for id, obj in container.items():
+                self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 70f8b40d83a86d53ab273d92b21fb1ebbc2dd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 23/94] fix: pass the overwrite flag on when creating a
 database module

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..4abb5c4 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -175,7 +175,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From 6e85914968f89a3601c205ef7581eb52a9a95bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 24/94] fix: replace an existing database module when
 overwriting is requested

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 4abb5c4..bccf8a5 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,11 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        # replace the files of the existing module
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From 9d3fa3b9f8490f22e12c25d43770849d46782bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 25/94] fix: delete only the files of the database module
 itself

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index bccf8a5..0120b13 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, join, exists, split, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -59,9 +59,12 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    name = split(abspath(path))[1]
+    # the storage keeps its database in the file called like the module and
+    # adds extensions to that name for the files that accompany it
     affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
+                if (isfile(join(path, file)) and
+                    (file == name or file.startswith(name + '.')))
                     or file == '__init__.py']
     for file in affected:
         remove(file)
-- 
2.43.0


From 19a9dcbf8b971a97589b05801713abef9f6c71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 26/94] fix: give every kind of empty storage a default
 container

---
 citrine/database/containerdb.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..9abb4b1 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -112,9 +112,11 @@ class ContainerDb(DB):
                 **storage_args)
         except POSKeyError:
             # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
+            if isinstance(storage, str):
+                # closing a storage that was handed in will make it unopenable
                 self.close()
+            elif storage is None:
+                storage, storage_args = self.storage, {}
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
@@ -124,7 +126,7 @@ class ContainerDb(DB):
                     conn.root.container = Container.new()
                     tm.commit()
             conn.close()
-            if not isinstance(storage, FileStorage):
+            if isinstance(storage, str):
                 db.close()
         super().__init__(
             storage=storage, pool_size=pool_size,
-- 
2.43.0


From 8d15f7c32f618f0da7bd75ea7128d22743c5a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 27/94] fix: honour strict when a client creates the missing
 container

---
 citrine/client/container_client.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..d9ddf45 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -179,6 +179,15 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
+        # a ContainerDb creates a default Container unless there already is one
+        if create_missing_container:
+            conn = DB(client).open()
+            if not getattr(conn.root, 'container', None):
+                with conn.transaction_manager as tm:
+                    conn.root.container = Container.new(strict=strict)
+                    tm.commit()
+            conn.close()
+
         # Link to a local ContainerDb
         client = cls.load(client, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
-- 
2.43.0


From d995950e8fc40205cd9d0952245cfcc5751e807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 28/94] fix: open existing container databases only once

---
 citrine/database/containerdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 9abb4b1..fc27b5c 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -128,6 +128,11 @@ class ContainerDb(DB):
             conn.close()
             if isinstance(storage, str):
                 db.close()
+            if databases is not None and databases.get(database_name) is self:
+                del databases[database_name]
+        else:
+            # there already is a container
+            return
         super().__init__(
             storage=storage, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
-- 
2.43.0


From e518c4fe3a68833d08836eed2b6c4f9686614392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 29/94] fix: import an existing database class in generated
 modules

---
 citrine/cluster_tools/dbmodule/consts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..6fd483c 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,7 +6,7 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
@@ -18,7 +18,7 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb as CitrineDB
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
 db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
-- 
2.43.0


From 038433513cb0a8ab67bbe38da86c6ec1a5f50c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 30/94] fix: report the size of a database module

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 0120b13..1991492 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -147,7 +147,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 89561a7ee8e35e1716b8a3089a88eefce0f660da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 31/94] fix: remove destroyed modules from their group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From 0f8c61ba430fe640c859cf96c567804f0b4b20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 32/94] fix: remove the compiled code of a deleted database
 module

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 1991492..f918e0f 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -68,6 +68,8 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
                     or file == '__init__.py']
     for file in affected:
         remove(file)
+    # importing the module leaves its compiled code behind
+    rmtree(join(path, '__pycache__'), ignore_errors=True)
     if remove_empty and not len(listdir(path)):
         rmdir(path)
 
-- 
2.43.0


From bfe40178df7bf01d9b5dbc10bdcf9837435ddee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 33/94] fix: keep the context manager active until the
 outermost context is left

---
 jsonld/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..d82c940 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -222,7 +222,7 @@ class JsonContextAwareManager:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.context = None if not self.__stack else self.__stack.pop()
-        self.active = False
+        self.active = bool(self.__stack)
 
 
 class JsonProperty(NamespacedObject):
-- 
2.43.0


From 07d07eae4badc133e648a7d3d380677bedc0ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 34/94] fix: keep booleans and None in serialised values

---
 jsonld/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..1582c36 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -46,6 +46,8 @@ class PropertyJsonLD(PropertyAwareObject):
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
+        type(None): lambda val, *args, **kwargs: val,
         list: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         set: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         tuple: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
-- 
2.43.0


From e398b5d2ae323b98c418241339d42b7b82b7d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 35/94] fix: exclude and include a property given as a single
 name exactly

---
 jsonld/jsonld.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 1582c36..6dce448 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -80,6 +80,9 @@ class PropertyJsonLD(PropertyAwareObject):
         :param context: contextual property context to operate under
         :return: dictionary of properties
         """
+        # a single name is not a collection of (parts of) names
+        include = (include,) if isinstance(include, str) else include
+        exclude = (exclude,) if isinstance(exclude, str) else exclude
         with self.switch_context(context) as process_context:
             transforms = {**self.default_transforms,
                           **(transforms if transforms else {})}
-- 
2.43.0


From ad201c8b67cd34b04ebb32ff0063a4fa7000b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 36/94] fix: apply the transformations when serialising

---
 jsonld/jsonld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 6dce448..e7a35b3 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -89,7 +89,9 @@ class PropertyJsonLD(PropertyAwareObject):
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
             data = {
                 # change name of property, if provided in mapping
-                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
+                rename.get(prop, prop): self.__handler(
+                    transforms.get(prop, lambda val: val)(
+                        getattr(self, prop, None)))
                 for prop in self.__properties__
                 # if include_null is True or the property is not None
                 if (include_none or getattr(self, prop) is not None)
-- 
2.43.0


From fee4fca8edc3ea41b532383fb580c6038cc74040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 37/94] fix: refuse values that a property validator rejects

---
 jsonld/tools/type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonld/tools/type.py b/jsonld/tools/type.py
index b9c9a21..4def2d4 100644
--- a/jsonld/tools/type.py
+++ b/jsonld/tools/type.py
@@ -18,10 +18,14 @@ def evaluate_value(val, types: Iterable, prop: str,
         return [evaluate_value(v, types=types, prop=prop, functional=functional,
                                additional=additional, **kwargs)
                 for v in val]
+    if val is None and kwargs.get('skip_none', False):
+        return val
     for f in additional:
         # additional validation functions can be passed in but need to be
         # able to accept types, property, and functional as keyword args
-        f(val, types=types, prop=prop, functional=functional, **kwargs)
+        if f(val, types=types, prop=prop, functional=functional,
+             **kwargs) is False:
+            raise ValueError(f"Property '{prop}' does not allow \"{val}\"")
     return val
 
 
-- 
2.43.0


From 7d158454e147fcdd5c09a9ee851ad5c55d8349c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 38/94] fix: write zero, negative and fractional durations
 correctly

---
 jsonld/engine/utils.py   | 8 ++++++++
 jsonld/tools/datetime.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..62f318b 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -67,12 +67,20 @@ def stringify_timedelta(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    # at least one component is required
+    if not obj:
+        return 'PT0S'
+    # negative durations are the positive one behind a sign
+    if obj.days < 0:
+        return f'-{stringify_timedelta(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06d}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..35e998a 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -49,12 +49,20 @@ def timedelta_str(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    # at least one component is required
+    if not obj:
+        return 'PT0S'
+    # negative durations are the positive one behind a sign
+    if obj.days < 0:
+        return f'-{timedelta_str(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06d}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
-- 
2.43.0


From e334632106fda28c6646c53770634f1ad47e9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 39/94] fix: check every character of the network location of
 urls

---
 jsonld/docloader.py    | 2 +-
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 62f318b..b02e28e 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From 0b61bf2a00636a09559f1398a031c0a211c1a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 40/94] fix: write datetimes in UTC and with a four-digit year

---
 jsonld/engine/utils.py   | 6 +++++-
 jsonld/tools/datetime.py | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index b02e28e..63e879e 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -100,7 +100,11 @@ def stringify_datetime(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
+    # "Z" is UTC, which datetimes without a timezone are taken to be in already
+    if obj.utcoffset():
+        obj = obj.replace(tzinfo=None) - obj.utcoffset()
+    # the year always has four digits
+    return obj.strftime('%Y-%m-%dT%H:%M:%SZ').zfill(20)
 
 
 # matches a data type to a function
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 35e998a..3eea7fa 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -82,6 +82,9 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement handling for timezone-aware datetimes
+    # "Z" is UTC, which datetimes without a timezone are taken to be in already
+    if obj.utcoffset():
+        obj = obj.replace(tzinfo=None) - obj.utcoffset()
     # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    # the year always has four digits
+    return obj.strftime('%Y-%m-%dT%H:%M:%SZ').zfill(20)
\ No newline at end of file
-- 
2.43.0


From f6130697003b3c824047091788de4e1f95174d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 41/94] fix: ignore parameters of the content type of loaded
 documents

---
 jsonld/docloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index cd27967..65b8647 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -80,6 +80,8 @@ class RequestsJsonLoader:
         content_type = response.headers.get('content-type')
         if not content_type:
             content_type = 'application/octet-stream'
+        # the media type does not depend on parameters ("; charset=utf-8")
+        media_type = content_type.split(';')[0].strip().lower()
         doc = {
             'contentType': content_type,
             'contextUrl': None,
@@ -90,7 +92,7 @@ class RequestsJsonLoader:
         if link_header:
             linked_context = parse_link_header(link_header).get(LINK_HEADER_REL)
             # only 1 related link header permitted
-            if linked_context and content_type != 'application/ld+json':
+            if linked_context and media_type != 'application/ld+json':
                 if isinstance(linked_context, list):
                     raise JsonLdError(
                         'URL could not be dereferenced, '
@@ -104,7 +106,7 @@ class RequestsJsonLoader:
             # if not JSON-LD, alternate may point there
             if linked_alternate and \
                     linked_alternate.get('type') == 'application/ld+json' and \
-                    not re.match(r'^application/(\w*\+)?json$', content_type):
+                    not re.match(r'^application/(\w*\+)?json$', media_type):
                 doc['contentType'] = 'application/ld+json'
                 doc['documentUrl'] = jsonld.prepend_base(
                     url, linked_alternate['target'])
-- 
2.43.0


From 388fce8fc38d580c6c6f9363947f6f6a4529954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 42/94] fix: load documents that have several alternate links

---
 jsonld/docloader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 65b8647..4e17eee 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -103,6 +103,11 @@ class RequestsJsonLoader:
                         code='multiple context link headers')
                 doc['contextUrl'] = linked_context['target']
             linked_alternate = parse_link_header(link_header).get('alternate')
+            # of several alternates only a JSON-LD one is of interest
+            if isinstance(linked_alternate, list):
+                linked_alternate = next(
+                    (alternate for alternate in linked_alternate if
+                     alternate.get('type') == 'application/ld+json'), None)
             # if not JSON-LD, alternate may point there
             if linked_alternate and \
                     linked_alternate.get('type') == 'application/ld+json' and \
-- 
2.43.0


From 3e10a3e0c759e26057ad31100654b3945d246c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 43/94] fix: keep the namespace of types whose type property is
 linked

---
 activitystreams/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..f69c2c1 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -20,6 +20,15 @@ ACTIVITYSTREAMS_NS = 'https://www.w3.org/ns/activitystreams'
 SECURE_URLS_ONLY = False
 
 
+def type_name(cls) -> str:
+    """
+    Gets the name of the type of a class. Packages link a property named "type"
+    to their classes, which hides the name that is declared in the class
+    """
+    return next(vars(kls)['type'] for kls in cls.mro()
+                if isinstance(vars(kls).get('type'), str))
+
+
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
 # CORE TYPES
 #   REF: https://www.w3.org/TR/activitystreams-vocabulary/#types
@@ -42,7 +51,7 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -99,7 +108,7 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From 0f448a3c9c12a724b93629a4de9df9e9b85a0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 44/94] fix: accept objects for the properties defined after
 "object"

---
 activitystreams/properties.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..dca7df7 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1341,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1357,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1373,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From ef08d3486dceaf4615b9942ef1619e4b8e1ddcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 45/94] fix: keep the type given to plain objects and links

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index f69c2c1..23a61ff 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -64,7 +64,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -128,7 +128,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From a23315d2faeb85aa0cc6b3b2b2302749bcc37250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 46/94] fix: keep the hreflang of links

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index dca7df7..f9e3216 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1027,7 +1027,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From 8d31b79033606b88706eea9dfd3f820e2b048ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 47/94] fix: include the context of objects and links

---
 activitystreams/package.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/activitystreams/package.py b/activitystreams/package.py
index 79acb17..5d6bf03 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -134,6 +134,7 @@ property_mapping = {
                                         properties.AttributedTo.__get_namespace__(),
                                         properties.Audience.__get_namespace__(),
                                         properties.Content.__get_namespace__(),
+                                        properties.Context.__get_namespace__(),
                                         properties.Name.__get_namespace__(),
                                         properties.EndTime.__get_namespace__(),
                                         properties.Generator.__get_namespace__(),
@@ -164,7 +165,8 @@ property_mapping = {
                                       properties.HrefLang.__get_namespace__(),
                                       properties.Height.__get_namespace__(),
                                       properties.Width.__get_namespace__(),
-                                      properties.Preview.__get_namespace__(),),
+                                      properties.Preview.__get_namespace__(),
+                                      properties.Context.__get_namespace__(),),
     models.Activity.__get_namespace__(): (properties.Actor.__get_namespace__(),
                                           properties.Object.__get_namespace__(),
                                           properties.Target.__get_namespace__(),
-- 
2.43.0


From 431b8a26c2f750d384b34ac859569fc9df7ed846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 48/94] fix: keep the items of collections

---
 activitystreams/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 23a61ff..88a1c0b 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -361,7 +361,8 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        self.items = items if getattr(self, 'items', None) is None \
+            else self.items
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
@@ -462,10 +463,9 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                  first=None, last=None, items=None, partOf=None, next=None,
                  prev=None, startIndex=None, orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
-        # OrderedCollection has no special handling in its init that
-        # CollectionPage doesn't already do
-        OrderedCollection.__init__(self, orderedItems=orderedItems)
-        CollectionPage.__init__(self, id=id, type=type,
+        # OrderedCollection hands everything it has no special handling for on
+        # to CollectionPage
+        OrderedCollection.__init__(self, id=id, type=type,
                                 attachment=attachment,
                                 attributedTo=attributedTo,
                                 audience=audience,
@@ -482,6 +482,7 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 cc=cc, bcc=bcc, mediaType=mediaType,
                                 duration=duration, totalItems=totalItems,
                                 current=current, first=first, last=last,
+                                items=items, orderedItems=orderedItems,
                                 partOf=partOf, next=next, prev=prev,
                                 acontext=acontext)
         self.startIndex = startIndex if startIndex else 0
-- 
2.43.0


From 96b346d74f48fb936472c7f27dadee840b895781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 49/94] fix: keep a total of zero and count ordered items

---
 activitystreams/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 88a1c0b..7801083 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -366,7 +366,7 @@ class Collection(Object):
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
+        self.totalItems = totalItems if totalItems is not None else (
             0 if not isinstance(self.items, Sized) else len(self.items)
         )
 
@@ -407,6 +407,9 @@ class OrderedCollection(Collection):
                          current=current, first=first, last=last,
                          acontext=acontext, **kwargs)
         self.orderedItems = orderedItems
+        if totalItems is None and isinstance(orderedItems, Sized) \
+                and not isinstance(orderedItems, str):
+            self.totalItems = len(orderedItems)
 
 
 class CollectionPage(Collection):
-- 
2.43.0


From 0255aafbc8cad69eacf8e4b667691e7ed9441df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 50/94] fix: iterate over collections without items

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 7801083..d1edaae 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -372,7 +372,7 @@ class Collection(Object):
 
     def __iter__(self):
         if not self.items:
-            yield
+            return
         for item in self.items:
             yield item
 
-- 
2.43.0


From 55445118f430ad10c71fb37ea69fe3b9c09cbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 51/94] fix: keep the former type of tombstones

---
 activitystreams/models.py     | 6 ++++--
 activitystreams/properties.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index d1edaae..2cd5746 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -930,9 +930,11 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.former_type = former_type if formerType is None else formerType
+        self.formerType = self.former_type
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index f9e3216..4632a0f 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1389,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(models.Object,)).check
+    @SetterValidator(types=(models.Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 7b33066fbc36cdc73fd6b79d0bc8030530f0f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 52/94] fix: accept the deletion time of tombstones as text

---
 activitystreams/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 4632a0f..1aa6d78 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1412,7 +1412,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 882e2223665eea381314e08bfbe9b0e21a0f0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 53/94] fix: accept the closing time of questions as text

---
 activitystreams/properties.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 1aa6d78..e1f3488 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -618,9 +618,11 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
-        self.___closed___ = val
+        self.___closed___ = val if not isinstance(val, str) \
+            else parse_activitystream_datetime(val)
 
 
 class Origin(ActivityStreamsProperty):
-- 
2.43.0


From fb538e05e0d4b13c5133735d92acbeb1abba71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 54/94] fix: raise an error for data of an unknown type

---
 jsonld/engine/json_input.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..258b241 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -61,10 +61,7 @@ class PropertyJsonIntake:
             class_type = 'default'
 
         # gets the class for the object that needs to be created from the
-        object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
-        return object_class
+        return self.class_registry.get(class_type)
 
     def _unpack_objects(self, data, context):
         """
@@ -112,6 +109,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From fd633ebf9209770cb287292021d94d5ead5b63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 55/94] fix: build engines from several packages

---
 jsonld/engine/jsonld_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..f8e02b4 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -17,7 +17,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = (packages,) if isinstance(packages, JsonLdPackage) \
+            else tuple(packages)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
-- 
2.43.0


From 1c47d061640b6c3f71a06026f195554a5119da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 56/94] fix: add packages to engines and subtract packages and
 engines

---
 jsonld/engine/jsonld_engine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index f8e02b4..f21913c 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -91,7 +91,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -103,10 +103,13 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(package for package in self.packages
+                                if package.namespace != other.namespace)
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            removed = [package.namespace for package in other.packages]
+            return JsonLdEngine(package for package in self.packages
+                                if package.namespace not in removed)
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From 71218d989aca6ca7d5ddc72356904bbc74f5514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 57/94] fix: create packages without a property mapping

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..990aaea 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping or {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From 184ae8c988e6d41f849b454e1f6d3eb74b9edfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 58/94] fix: keep the own properties when subtracting packages

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 990aaea..5ee9ecb 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -167,7 +167,7 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
         return JsonLdPackage(namespace=self.namespace,
-- 
2.43.0


From af71ad7383ef9c0b617f2e456d2c3905e6191062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 59/94] fix: do not replace the empty name, types or properties
 of packages

---
 jsonld/package.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 5ee9ecb..03c79d9 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -49,7 +49,7 @@ class JsonLdPackage(ClassCloner):
     @namespace.setter
     def namespace(self, ns):
         # can only be set once, during construction
-        if self.namespace:
+        if self.namespace is not None:
             raise AttributeError(f'JsonLdPackage namespace is immutable')
         if not isinstance(ns, str):
             raise TypeError(f'JsonLdPackage namespace must be a string, ' +
@@ -66,7 +66,7 @@ class JsonLdPackage(ClassCloner):
 
     @objects.setter
     def objects(self, objects: Iterable):
-        if self.objects:
+        if hasattr(self, '___objects___'):
             raise AttributeError(f'JsonLdPackage classes are immutable')
         for obj in objects:
             logger.info(f'Setting "{obj.__get_namespace__()}" in package ' +
@@ -79,7 +79,7 @@ class JsonLdPackage(ClassCloner):
 
     @properties.setter
     def properties(self, properties: dict):
-        if self.properties:
+        if hasattr(self, '___properties___'):
             raise AttributeError(f'JsonLdPackage properties are immutable')
         for prop in properties:
             logger.info(f'Setting "{prop.__get_namespace__()}" in package ' +
-- 
2.43.0


From e96310ac920de755143e7d7cc98ba8f19229376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 60/94] fix: clone every class of an iterator

---
 jsonld/kamino.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..b4fda32 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -56,6 +56,8 @@ class ClassCloner:
         :param classes:
         :return:
         """
+        # the classes are gone through several times
+        classes = tuple(classes)
         # creates a dictionary that organizes classes based on how many
         # package-internal dependencies they have
         ordered = {}
-- 
2.43.0


From ccc47b502e8316f77ffc5454d11afe004ce1e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 61/94] fix: let cloned classes keep what they inherit from
 other classes

---
 jsonld/kamino.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index b4fda32..c63fa6c 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -91,7 +91,8 @@ class ClassCloner:
             # IF there is a cloned class for a dependency (root will not have!)
             # THEN have the dependent cloned class inherit from it
             cls = node.cls
-            inherits = [class_ref.get(p) for p in node.parents.keys()] + [cls]
+            # what the class has itself goes before what it inherits
+            inherits = [cls] + [class_ref.get(p) for p in node.parents.keys()]
             inherits = tuple(filter(lambda n: n is not None, inherits))
 
             class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
-- 
2.43.0


From c451a70a24e362d79bdfd6eed5d8396332fde5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 62/94] fix: convert the values that are assigned to properties
 of a package

---
 jsonld/kamino.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index c63fa6c..27dafaa 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -156,13 +156,13 @@ class ClassCloner:
             return wrap_return
 
         def set_wrapper(fn):
-            def wrap_input(val, *args, **kwargs):
+            def wrap_input(obj, val, *args, **kwargs):
                 if val.__class__ not in self.object_ref.keys():
-                    fn(val, *args, **kwargs)
+                    fn(obj, val, *args, **kwargs)
                     return
                 with val.switch_context(CLASS_CHANGE_CONTEXT):
-                    fn(self.change_class(val, self.object_ref.get(val.__class__)),
-                       *args, **kwargs)
+                    val = self.change_class(val, self.object_ref.get(val.__class__))
+                fn(obj, val, *args, **kwargs)
             return wrap_input
 
         props = dict()
-- 
2.43.0


From 0d7acdb43c809bd402b0662b7febf9f60af359c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 63/94] fix: keep the namespaces of other classes when changing
 classes

---
 jsonld/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index d82c940..aa72348 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -186,7 +186,9 @@ class NamespacedObject:
 
     @__namespace__.setter_context(CLASS_CHANGE_CONTEXT)
     def __namespace__(self, new_ns):
-        self.__class__.__get_namespace__ = lambda: new_ns
+        # classes keep calculating their namespace for as long as it is right
+        if new_ns != self.__class__.__get_namespace__():
+            self.__class__.__get_namespace__ = lambda: new_ns
 
     @__namespace__.getter_context(JSON_DATA_CONTEXT)
     def __namespace__(self):
-- 
2.43.0


From 347dc2867f736d144957cdc9bb076e44768704fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 64/94] fix: keep the id of links

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 2cd5746..108919c 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -113,7 +113,7 @@ class Link(ApplicationActivityJson):
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
                  context=None, type=None,
-                 acontext=ACTIVITYSTREAMS_NS,
+                 acontext=ACTIVITYSTREAMS_NS, id=None,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
@@ -129,6 +129,7 @@ class Link(ApplicationActivityJson):
         self.preview = preview
         self.context = context
         self.type = getattr(self, 'type', None) or type
+        self.id = id
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 5c3e319593f233ddc4d9b4596133c72d78939235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 65/94] fix: read data without a context in the default context

The default context had an http address, which the document loader refuses,
so data without a context could not be read at all; an empty context was
not replaced for nested objects.
---
 jsonld/engine/json_input.py | 2 +-
 jsonld/utils.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index 258b241..ab0412a 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -104,7 +104,7 @@ class PropertyJsonIntake:
         """
         # convert to dict and expand
         data = json.loads(data) if isinstance(data, str) else data.copy()
-        context = data.get('@context', DEFAULT_CONTEXT)
+        context = data.get('@context', None) or DEFAULT_CONTEXT
         if not data.get('@context', None):
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
diff --git a/jsonld/utils.py b/jsonld/utils.py
index a852f12..77eb3f3 100644
--- a/jsonld/utils.py
+++ b/jsonld/utils.py
@@ -33,7 +33,7 @@ JSON_LD_KEYMAP = {
 }
 
 DEFAULT_TYPE = 'https://www.w3.org/ns/activitystreams#Object'
-DEFAULT_CONTEXT = "http://www.w3.org/ns/activitystreams#"
+DEFAULT_CONTEXT = "https://www.w3.org/ns/activitystreams"
 
 DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
-- 
2.43.0


From 51967648993b2df1deb6a18766922d4344064fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 66/94] fix: do not fetch links when the class of an object
 changes

The values are read to carry them over; a link was replaced by the object it
points to, or the change failed when that had the wrong type.
---
 activitystreams/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 108919c..716fce0 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -11,7 +11,9 @@ from collections.abc import Sized
 
 from jsonld import ApplicationActivityJson
 from jsonld import jsonld_get
+from jsonld.base import ContextualProperty
 from jsonld.tools import validate_url, validate_acct_or_email
+from jsonld.utils import CLASS_CHANGE_CONTEXT
 
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
@@ -189,6 +191,9 @@ class Link(ApplicationActivityJson):
             return cls
 
         def decorator(obj):
+            # only the stored value matters when the class of obj changes
+            if ContextualProperty.get_context(obj) == CLASS_CHANGE_CONTEXT:
+                return get_func(obj)
             new_obj = get_class(obj).get(get_func(obj))
             return new_obj if new_obj else get_func(obj)
 
-- 
2.43.0


From 3df3bb17b5a68c385b076a573f272560d4d65ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 67/94] fix: keep read-only properties read-only in packages

---
 jsonld/kamino.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 27dafaa..6ad8b65 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -183,7 +183,8 @@ class ClassCloner:
             if not isinstance(prop, property):
                 # failsafe in case something unexpected comes in!
                 continue
-            wrapped = property(fget=get_wrapper(prop.fget),
-                               fset=set_wrapper(prop.fset),
+            # what the property does not have cannot be wrapped
+            wrapped = property(fget=prop.fget and get_wrapper(prop.fget),
+                               fset=prop.fset and set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
-- 
2.43.0


From 9aeba23eef209f0c94f6e33812ef47deb029a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 68/94] fix: static methods and classes inside packaged classes
 work as on the class

---
 jsonld/kamino.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 6ad8b65..ecd9ff2 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -139,7 +139,14 @@ class ClassCloner:
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
         for name, method in cls.__dict__.items():
-            if callable(method):
+            if isinstance(method, type) or not callable(method):
+                # a class in a class is not a method
+                continue
+            if isinstance(method, staticmethod) or \
+                    not hasattr(type(method), '__get__'):
+                # not given the object that it is called on
+                setattr(cls, name, staticmethod(wrapper(method)))
+            else:
                 setattr(cls, name, wrapper(method))
 
     def wrap_properties(self, cls):
-- 
2.43.0


From 3b6295d97d3d69b7bcc4f47a2916038b5622cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 69/94] fix: the default transaction manager of
 CitrineConnection knows autocommit

---
 citrine/persistence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 7577466..140f0ec 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -58,6 +58,12 @@ class CitrineThreadTransactionManager(ThreadTransactionManager):
         super().__init__()
         self.manager = CitrineTransactionManager()
 
+    def __getattr__(self, name):
+        # what CitrineTransactionManager adds, ``autocommit`` for example
+        if name == 'manager':
+            raise AttributeError(name)
+        return getattr(self.manager, name)
+
 
 def autocommit(fn):
     """
-- 
2.43.0


From e8260317f245a9d833e67a445ab529d9a4b56c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 70/94] fix: CitrineTransactionManager commits automatically
 again after a failed commit

---
 citrine/persistence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 140f0ec..daa4b14 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -38,13 +38,14 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        # set first, so that a failing commit cannot prevent it
+        self.autocommit = True
         if exc_val is None:
             self.commit()
             self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
         else:
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
         self.transaction_uuid = None
 
 
-- 
2.43.0


From fe35cfd1359b581d637dd575f3882484a28d1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 71/94] fix: a CitrineConnection without auto_transaction does
 not commit by itself

---
 citrine/persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index daa4b14..ad6d6a4 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -77,7 +77,7 @@ def autocommit(fn):
 
     def decorator(obj, id, *args, **kwargs):
         tm = obj.transaction_manager
-        if not tm.autocommit:
+        if not tm.autocommit or not getattr(obj, 'auto_transaction', True):
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
             return fn(obj, id, *args, **kwargs)
-- 
2.43.0


From a15c1aedbad6f0774366654624af0aa3cf403366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 72/94] fix: data() accepts every kind of iterable

---
 jsonld/jsonld.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index e7a35b3..3c8a0bf 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -81,8 +81,10 @@ class PropertyJsonLD(PropertyAwareObject):
         :return: dictionary of properties
         """
         # a single name is not a collection of (parts of) names
-        include = (include,) if isinstance(include, str) else include
-        exclude = (exclude,) if isinstance(exclude, str) else exclude
+        include = (include,) if isinstance(include, str) else tuple(include or ())
+        exclude = (exclude,) if isinstance(exclude, str) else tuple(exclude or ())
+        # they are searched for every property, an iterator can be read once
+        reject_values = tuple(reject_values)
         with self.switch_context(context) as process_context:
             transforms = {**self.default_transforms,
                           **(transforms if transforms else {})}
-- 
2.43.0


From 018f8606e3def4e7786280151bc445e65e3aae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 73/94] fix: objects can be indexed with any iterable of names

---
 jsonld/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index aa72348..6552b50 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -309,7 +309,7 @@ class PropertyAwareObject(NamespacedObject):
             yield prop, getattr(self, prop)
 
     def __getitem__(self, keys):
-        keys = [keys] if isinstance(keys, str) else keys
+        keys = [keys] if isinstance(keys, str) else list(keys)
         if any(key not in self.__properties__ for key in keys):
             bad_keys = [key for key in keys if key not in self.__properties__]
             raise KeyError(f'''Key{'s' if len(bad_keys) > 1 else ''} ''' +
-- 
2.43.0


From d3c73b4018401a6b01577e505f8a2034c0efaae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 74/94] fix: packages can be indexed with any iterable of names

---
 jsonld/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonld/package.py b/jsonld/package.py
index 03c79d9..44b40f9 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -135,6 +135,7 @@ class JsonLdPackage(ClassCloner):
     def __getitem__(self, keys):
         if isinstance(keys, str):
             return self.__ref.get(keys, None)
+        keys = list(keys)
         if any(not isinstance(key, str) for key in keys):
             raise ValueError('JsonLdPackage getitem can only accept strings')
         return [self.__ref.get(key, None) for key in keys]
-- 
2.43.0


From d7bcce4db55e49163c9a88a77b76495ee67fb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:27 +0000
Subject: [PATCH 75/94] fix: classes do not take over the property list cached
 by a parent class

---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 6552b50..5060d45 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -323,7 +323,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        # the copy that a parent class has cached is not about this class
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From db7b0c57e0a40e15b6465fcce616d851710286ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:29 +0000
Subject: [PATCH 76/94] fix: property classes do not take over the property
 cached by a parent class

---
 jsonld/base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 5060d45..33a6370 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -260,9 +260,14 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
-            prop = [key for key, value in cls.__dict__.items()
-                    if isinstance(value, property)]
+        # what a parent class has cached is not about this class
+        if '__property_name__' not in cls.__dict__ or refresh:
+            # a class without a property of its own has that of its parent
+            prop = next(filter(None, ([key for key, value in
+                                       kls.__dict__.items()
+                                       if isinstance(value, property)]
+                                      for kls in cls.mro()
+                                      if kls is not NamespacedObject)), [])
             # the registration process only supports ONE property per class;
             # this is intentional
             if len(prop) != 1:
@@ -280,10 +285,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        if '__property_name__' not in cls.__dict__ or refresh:
             cls.__property_name__ = cls.__get_property_name__(refresh=True)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
+        if '__registration__' not in cls.__dict__ or refresh:
             prop = getattr(cls, cls.__property_name__, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
-- 
2.43.0


From 72fded7844034cdf4cc205c1465c4c92e1f2185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 77/94] fix: packages link the wrapped properties of property
 classes that were used before

---
 jsonld/package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 44b40f9..388e944 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -108,7 +108,7 @@ class JsonLdPackage(ClassCloner):
         :return:
         """
         setattr(object_class, property_class.__get_property_name__(),
-                property(*property_class.__get_registration__()))
+                property(*property_class.__get_registration__(refresh=True)))
 
     def link_properties(self, property_namespaces: Iterable[str],
                         object_namespace: str):
@@ -126,7 +126,7 @@ class JsonLdPackage(ClassCloner):
     def update_property_link(self, property_class: JsonProperty,
                              object_class: PropertyAwareObject):
         setattr(object_class, property_class.__get_property_name__(),
-                property(*property_class.__get_registration__()))
+                property(*property_class.__get_registration__(refresh=True)))
 
     def remove_property_link(self, property_name: str,
                              object_class: PropertyAwareObject):
-- 
2.43.0


From 13c94239410f9c890006315574fd65114d0ca37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 78/94] fix: dictionaries whose href is no text are refused
 like other values

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 716fce0..c6447a7 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -242,8 +242,8 @@ class Link(ApplicationActivityJson):
             if (isinstance(v, str) and
                     (validate_url(v) or validate_acct_or_email(v))):
                 return link_cls(href=v)
-            if isinstance(v, dict) and v.get('href', None) and validate_url(
-                    v.get('href', '')):
+            if isinstance(v, dict) and isinstance(v.get('href'), str) and \
+                    validate_url(v['href']):
                 return link_cls(**v)
             # if it's an iterable other than a string or dict, create many links
             if isinstance(v, (list, tuple, set)):
-- 
2.43.0


From da197791b635bab82b74a60638da540a08ce7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 79/94] fix: datetimes consist of ASCII digits

---
 jsonld/tools/datetime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 3eea7fa..fe16c5f 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -16,7 +16,9 @@ AS2_DATE_TIME = re.compile(r'\d{4}-' +  # year
                            r'(\.\d{1,6})?' +  # fraction (6 digit int)
                            # mandatory Z if no timezone
                            # optional Z and timezone (+|-)(00-23):(00-59))
-                           r'(Z|(Z?[\-+](0\d|1\d|2[0123]):[012345]\d))$')
+                           r'(Z|(Z?[\-+](0\d|1\d|2[0123]):[012345]\d))$',
+                           # digits are those of RFC 3339
+                           re.ASCII)
 
 
 def is_activity_datetime(val, prop='', **kwargs):
-- 
2.43.0


From cba52b99aca4a7cb3844b25a37557ba8afac0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 80/94] fix: connection operations accept their object by
 keyword

---
 citrine/persistence.py         | 10 +++++-----
 citrine/storage/transaction.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index ad6d6a4..c9042a2 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -75,15 +75,15 @@ def autocommit(fn):
     :return:
     """
 
-    def decorator(obj, id, *args, **kwargs):
-        tm = obj.transaction_manager
-        if not tm.autocommit or not getattr(obj, 'auto_transaction', True):
+    def decorator(self, id, *args, **kwargs):
+        tm = self.transaction_manager
+        if not tm.autocommit or not getattr(self, 'auto_transaction', True):
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
         with tm:
             tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
 
     return decorator
 
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index c13a5c3..8725ca6 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -82,14 +82,14 @@ def autocommit(fn):
     :return:
     """
 
-    def decorator(obj, id, *args, **kwargs):
-        tm = obj.transaction_manager
+    def decorator(self, id, *args, **kwargs):
+        tm = self.transaction_manager
         if not tm.autocommit:
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
         with tm:
             tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
 
     return decorator
\ No newline at end of file
-- 
2.43.0


From e86379c0218a72f1f91f468055c1c8095f46b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 81/94] fix: expanding a container does not lose concurrent
 writes

---
 citrine/persistence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index c9042a2..3a1bf02 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -132,6 +132,8 @@ class DbContainer(Persistent):
         })
         # the number of containers decides where an object is looked up
         for container in previous.values():
+            # what a concurrent transaction writes to it must not get lost
+            container._p_changed = True
             for id, obj in container.items():
                 self.write(id, obj)
 
-- 
2.43.0


From 671f49a7583cedfabe2f06827ab2e5b82c807172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:02 +0000
Subject: [PATCH 82/94] fix: condensing and resizing do not lose concurrent
 changes

---
 citrine/storage/container.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7efd69a..1d71d89 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -325,6 +325,9 @@ class Container(Persistent, ContainerProperties):
 
     def __condense(self, source_groups, transfer, transaction_manager):
         def fn(group, key):
+            # removed by others while the objects were moved one by one
+            if not group.has_key(key):
+                return
             # insert before removing; the insert may be refused
             self.primary.insert(key, group.get(key))
             if transfer:
@@ -343,17 +346,26 @@ class Container(Persistent, ContainerProperties):
 
         if transfer:
             discarded = list(source_groups)
-            remaining = tuple(group for group in self.groups
-                              if group not in discarded)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = remaining
+                    self.__discard(discarded, fn)
                     tm.commit()
             else:
-                self.___groups___ = remaining
+                self.__discard(discarded, fn)
             return discarded
         return []
 
+    def __discard(self, discarded, move):
+        for group in discarded:
+            # written by others while the objects were moved one by one
+            for key in list(group.keys()):
+                move(group, key)
+            # whatever is still being written to it must not get lost
+            for collection in group.collections:
+                collection.tree._p_changed = True
+        self.___groups___ = tuple(group for group in self.groups
+                                  if group not in discarded)
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
-- 
2.43.0


From d61cdf183b0709624c4fc5ae15f134fe8fd855c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:02 +0000
Subject: [PATCH 83/94] fix: setting up a database does not replace what other
 sessions stored

---
 citrine/connection/connection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..b082b90 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -126,13 +126,16 @@ class CitrineConnection(Connection):
             logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
                             'CREATING NEW')
             with self:
-                self.root.container = DbContainer()
+                # another session may have set it up in the meantime
+                if not hasattr(self.root, 'container'):
+                    self.root.container = DbContainer()
 
         if not hasattr(self.root, 'meta'):
             logging.warning('MISSING METADATA OBJECT "root.meta", ' +
                             'CREATING NEW')
             with self:
-                self.root.meta = DbMetadata()
+                if not hasattr(self.root, 'meta'):
+                    self.root.meta = DbMetadata()
 
 # PLACEHOLDER! This will be the new name after the refactor in citrine.storage is done
 class ManagedConnection(CitrineConnection):
-- 
2.43.0


From d6e0d20ecba2f5adc0865001c661bd9cc8c31e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:01 +0000
Subject: [PATCH 84/94] fix: concurrent additions do not exceed a strict limit

---
 citrine/storage/collection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index afbfdc5..440668c 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -139,6 +139,12 @@ class Collection(Persistent):
         """
         return self.tree.get(key, default)
 
+    def __adding(self, *keys):
+        # the storage merges what concurrent transactions add, which could
+        # exceed the limit; changing the same object makes them conflict
+        if self.strict and not all(self.has_key(key) for key in keys):
+            self.meta._p_changed = True
+
     def insert(self, key, value):
         """
         Insert a single key-value pair into the collection
@@ -152,6 +158,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        self.__adding(key)
         return self.tree.insert(key, value)
 
     def update(self, collection):
@@ -166,6 +173,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
+        self.__adding(*new_keys)
         return self.tree.update(collection)
 
     def pop(self, key, default=None):
@@ -201,6 +209,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot set default for "{key}"; maximum size reached!'
             )
+        self.__adding(key)
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From 8797aad05ab7fb0146afbda78dd89fd9b8da78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 85/94] fix: connections taken from the pool report their own
 autocommit setting

---
 citrine/database/containerdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index fc27b5c..801265d 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -25,8 +25,11 @@ class ContainerDb(DB):
 
     def open(self, transaction_manager=None, at=None, before=None):
         transaction_manager = transaction_manager or ThreadTransactionManager()
-        return super().open(transaction_manager=transaction_manager, at=at,
+        connection = super().open(transaction_manager=transaction_manager, at=at,
                      before=before)
+        # pooled connections still have the setting of their previous user
+        connection.___autocommit___ = getattr(transaction_manager, 'autocommit', True)
+        return connection
 
     def __init__(self, storage, pool_size: int = 7,
                  pool_timeout: int = 2147483648, cache_size: int = 400,
-- 
2.43.0


From e8f9afeb55d242b538a2a078541643e471074d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:31 +0000
Subject: [PATCH 86/94] fix: a database path can be opened with storage options
 such as create

---
 citrine/database/containerdb.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 801265d..9dc3163 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -115,10 +115,8 @@ class ContainerDb(DB):
                 **storage_args)
         except POSKeyError:
             # often happens if the db is newly created
-            if isinstance(storage, str):
-                # closing a storage that was handed in will make it unopenable
-                self.close()
-            elif storage is None:
+            if storage is None or isinstance(storage, str):
+                # its arguments (such as create) must not be applied again
                 storage, storage_args = self.storage, {}
             db = DB(storage)
             conn = db.open()
@@ -129,8 +127,6 @@ class ContainerDb(DB):
                     conn.root.container = Container.new()
                     tm.commit()
             conn.close()
-            if isinstance(storage, str):
-                db.close()
             if databases is not None and databases.get(database_name) is self:
                 del databases[database_name]
         else:
-- 
2.43.0


From 3d98067dafc3d2ddc2373b6d2de9f47152254d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:31 +0000
Subject: [PATCH 87/94] fix: nested and parallel database blocks each close
 their own connection

---
 citrine/database/containerdb.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 9dc3163..1237193 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+import threading
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -9,6 +11,15 @@ from citrine.storage.container import Container
 from citrine.storage.transaction import ThreadTransactionManager
 
 
+class TemporaryConnections(threading.local):
+    """
+    The connections of the context managers the current thread is in
+    """
+
+    def __init__(self):
+        self.opened = []
+
+
 class ContainerDb(DB):
     """
     An implementation of ``ZODB.DB`` that wraps a single ``Container`` object
@@ -101,6 +112,7 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        self.__temporary_connections = TemporaryConnections()
         try:
             super().__init__(
                 storage=storage, pool_size=pool_size,
@@ -388,8 +400,13 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        connection = self.open()
+        self.__temporary_connections.opened.append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        connection = self.__temporary_connections.opened.pop()
+        if exc_val is not None:
+            # a connection with pending changes cannot be closed
+            connection.transaction_manager.abort()
+        connection.close()
-- 
2.43.0


From 3412965e4fe5c4dbee8daa606c05f54796b7ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 88/94] fix: creating a group leaves the custom definition it
 is given unchanged

---
 citrine/storage/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 3a46d93..7e1dbb2 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -270,7 +270,9 @@ class Group(Persistent):
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
             return Group(collections=collections, strict=strict)
-        # ensure any gaps are filled if custom definition is provided
+        # ensure any gaps are filled if custom definition is provided, in a copy
+        # that leaves the definition as it is
+        custom = dict(custom)
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
             raise KeyError("Custom collection keys must be integers")
-- 
2.43.0


From 71b6d54e06642df1cbcd02b209fd67b4cc189717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:07 +0000
Subject: [PATCH 89/94] fix: a secure document loader refuses insecure
 documents another loader cached

---
 jsonld/docloader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 4e17eee..77aec10 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -47,11 +47,10 @@ class RequestsJsonLoader:
                 'jsonld.LoadDocumentError', code='loading document failed',
                 cause=cause)
 
-    def get(self, url):
+    def check(self, url):
         """
-        Retrieves JSON-LD at the given URL.
-        :param url: the URL to retrieve.
-        :return: the RemoteDocument.
+        Raises an error for URLs this loader may not retrieve.
+        :param url: the URL to check.
         """
         pieces = parse.urlparse(url)
         # urls must start with "http" or "https"
@@ -74,6 +73,13 @@ class RequestsJsonLoader:
                              'secure=True; set secure=False or change scheme' +
                              f';\ngot: "{url}"')
 
+    def get(self, url):
+        """
+        Retrieves JSON-LD at the given URL.
+        :param url: the URL to retrieve.
+        :return: the RemoteDocument.
+        """
+        self.check(url)
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
         response = requests.get(url, headers=self.headers)
 
@@ -139,6 +145,8 @@ class CachedRequestsJsonLoader(RequestsJsonLoader):
         :return:
         """
         try:
+            # another loader may have cached what this one must not retrieve
+            self.check(url)
             if url not in self.cached_schemas.keys():
                 self.logger.info(f'Caching schema for {url}')
                 CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
-- 
2.43.0


From e5a0cbb720382636d70c9cd1ec52c89107e7c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:04 +0000
Subject: [PATCH 90/94] fix: values that inherit from JSON types are serialised
 as those types

---
 jsonld/jsonld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 3c8a0bf..dc6d8e6 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -3,7 +3,7 @@ Tools for working with json-ld data
 """
 import logging
 import json
-from collections.abc import Iterable
+from collections.abc import Iterable, Mapping
 from numbers import Number
 
 from jsonld.base import PropertyAwareObject, contextualproperty
@@ -58,8 +58,12 @@ class PropertyJsonLD(PropertyAwareObject):
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
             return value.data(exclude='acontext')
-        if type(value) in self.__data_handler_fns.keys():
-            return self.__data_handler_fns[type(value)](value, self.__handler)
+        # what inherits from a JSON type is a value of that type
+        for kls in type(value).__mro__:
+            if kls in self.__data_handler_fns.keys():
+                return self.__data_handler_fns[kls](value, self.__handler)
+        if isinstance(value, Mapping):
+            return self.__data_handler_fns[dict](value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From 1b4b35982e6c2924799b1a0187e0cbbcf31559a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 91/94] fix: expanding a CitrineConnection takes part in the
 transaction it is used in

---
 citrine/connection/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index b082b90..4a137e2 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -50,6 +50,7 @@ class CitrineConnection(Connection):
     def num_containers(self) -> int:
         return self.container.containers_size
 
+    @autocommit
     def expand_containers(self, num: int):
         """
         Add the specified number of sub-containers to the connection's main
@@ -57,8 +58,7 @@ class CitrineConnection(Connection):
         :param num: number of containers to expand by
         :return:
         """
-        with self:
-            self.container.expand_size(self.num_containers() + num)
+        self.container.expand_size(self.num_containers() + num)
 
     @autocommit
     def create(self, id: str, obj):
-- 
2.43.0


From 6a562f0f83b570df4e7ace6711cc9abc4f69c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:54 +0000
Subject: [PATCH 92/94] fix: a transaction block inside of another one is a
 part of it

---
 citrine/persistence.py         | 20 +++++++++++---
 citrine/storage/transaction.py | 48 +++++++++++++++++++++++++++++-----
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 3a1bf02..8b5febc 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -10,6 +10,8 @@ from persistent import Persistent
 from persistent.mapping import PersistentMapping
 from transaction import ThreadTransactionManager, TransactionManager
 
+from citrine.storage.transaction import end_inner_block
+
 # "why does EVERYTHING say citrine??" because I named things that work in a
 # very specific way with each other and should not be replaced with default
 # zodb components as "citrine" + original name
@@ -28,16 +30,28 @@ class CitrineTransactionManager(TransactionManager):
     def __init__(self, explicit=False):
         super().__init__(explicit=explicit)
         self.autocommit = True
+        self.blocks = []
         self.logger = logging.getLogger('CTransManager')
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
-        self.transaction_uuid = uuid.uuid4()
-        self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        if self.blocks:
+            # a block inside of another one is a part of its transaction
+            transaction = self.get()
+            self.blocks.append(self.savepoint())
+        else:
+            transaction = super().__enter__()
+            self.blocks.append(None)
+            self.transaction_uuid = uuid.uuid4()
+            self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        savepoint = self.blocks.pop()
+        if self.blocks:
+            end_inner_block(self, savepoint, exc_val)
+            return
         # set first, so that a failing commit cannot prevent it
         self.autocommit = True
         if exc_val is None:
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index 8725ca6..02208f8 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -3,6 +3,22 @@ import logging
 
 from transaction import ThreadTransactionManager as ZoThreadTransactionManager
 from transaction import TransactionManager as ZoTransactionManager
+from transaction.interfaces import InvalidSavepointRollbackError
+
+
+def end_inner_block(transaction_manager, savepoint, exception):
+    """
+    Ends a block inside of another one. What it did is left to the outer block
+    or undone if it failed
+    """
+    if exception is None:
+        return
+    try:
+        savepoint.rollback()
+    except InvalidSavepointRollbackError:
+        # committed in the meantime, only later changes can be undone
+        transaction_manager.abort()
+
 
 class TransactionManager(ZoTransactionManager):
     """
@@ -19,19 +35,29 @@ class TransactionManager(ZoTransactionManager):
         super().__init__(explicit=explicit)
         self.autocommit = True
         self.outer_autocommit = []
+        self.savepoints = []
         self.logger = logging.getLogger('CTransManager')
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
-        self.transaction_uuid = uuid.uuid4()
-        self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        if self.outer_autocommit:
+            # a block inside of another one is a part of its transaction
+            transaction = self.get()
+            self.savepoints.append(self.savepoint())
+        else:
+            transaction = super().__enter__()
+            self.transaction_uuid = uuid.uuid4()
+            self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.outer_autocommit.append(self.autocommit)
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         # restored first, so that a failing commit cannot prevent it
         self.autocommit = self.outer_autocommit.pop()
+        if self.outer_autocommit:
+            end_inner_block(self, self.savepoints.pop(), exc_val)
+            return
         if exc_val is None:
             self.commit()
             self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
@@ -51,19 +77,29 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         super().__init__()
         self.autocommit = True
         self.outer_autocommit = []
+        self.savepoints = []
         self.logger = logging.getLogger('CTransManager')
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
-        self.transaction_uuid = uuid.uuid4()
-        self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        if self.outer_autocommit:
+            # a block inside of another one is a part of its transaction
+            transaction = self.get()
+            self.savepoints.append(self.savepoint())
+        else:
+            transaction = super().__enter__()
+            self.transaction_uuid = uuid.uuid4()
+            self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
         self.outer_autocommit.append(self.autocommit)
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         # restored first, so that a failing commit cannot prevent it
         self.autocommit = self.outer_autocommit.pop()
+        if self.outer_autocommit:
+            end_inner_block(self, self.savepoints.pop(), exc_val)
+            return
         if exc_val is None:
             self.commit()
             self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-- 
2.43.0


From af7abd4146eab68d5f20953e36f21f892716f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:30 +0000
Subject: [PATCH 93/94] fix: stored keys can be updated where the limit is
 exceeded already

---
 citrine/storage/collection.py | 3 ++-
 citrine/storage/group.py      | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 440668c..a1d6b8d 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -169,7 +169,8 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if (new_keys and self.size + len(new_keys) > self.max_size
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 7e1dbb2..37cdb1c 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -324,8 +324,10 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = tuple(key for key in collection.keys()
+                         if key not in self.keys())
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
@@ -339,7 +341,8 @@ class Group(Persistent):
         for index, collection in split_collection.items():
             target = self.collections[index]
             new_keys = [key for key in collection if not target.has_key(key)]
-            if target.strict and target.size + len(new_keys) > target.max_size:
+            if (target.strict and new_keys
+                    and target.size + len(new_keys) > target.max_size):
                 raise CollectionCapacityError(
                     'Cannot update group; maximum collection size reached!'
                 )
-- 
2.43.0


From 5c534678e76de295972c9240cbf48f5aa677492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:30 +0000
Subject: [PATCH 94/94] fix: setdefault respects the capacity of a strict group

---
 citrine/storage/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 37cdb1c..dff844c 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -375,7 +375,13 @@ class Group(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises GroupCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.size >= self.max_size
+                and key not in self.keys()
+                and self.strict):
+            raise GroupCapacityError("Maximum size reached! Cannot set default")
         return Collection.setdefault
 
     def clear(self):
-- 
2.43.0

