From 00b9eb72b747e28fa738b1a9157aba02e673fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 001/101] fix: strict Collection.insert must not reject a key
 it already holds

Writing to an existing key does not grow the collection, but a full strict
collection raised CollectionCapacityError for it, so an existing object in a
full strict container could not be updated.
---
 citrine/storage/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..cfbb8be 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.strict and not self.has_key(key)
+                and self.size >= self.max_size):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From a5f2b8174a8dd321650cd99187fc91173cfab9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 002/101] fix: enforce the strict capacity limit in
 Collection.setdefault

---
 citrine/storage/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index cfbb8be..28be3aa 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -193,7 +193,14 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.strict and not self.has_key(key)
+                and self.size >= self.max_size):
+            raise CollectionCapacityError(
+                f'Cannot insert "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From d8833fb0f48889ae82e4a403437fdb5f18415330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 003/101] fix: make Group.update all-or-nothing

When a strict collection had no room for its share of the keys, the collections
before it had already been updated, so a failed update left a partial one.
---
 citrine/storage/collection.py | 15 +++++++++++++--
 citrine/storage/group.py      |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 28be3aa..6847360 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -161,12 +161,23 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
+        self.check_update(collection)
+        return self.tree.update(collection)
+
+    def check_update(self, collection):
+        """
+        Check that ``update`` can accept a set of key-value pairs without
+        changing anything.
+        :param collection: An iterable that provides key-value pairs
+        :raises CollectionCapacityError: if the size of the new keys to be
+        inserted will exceed the limit in strict mode
+        """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if self.strict and new_keys and \
+                self.size + len(new_keys) > self.max_size:
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
-        return self.tree.update(collection)
 
     def pop(self, key, default=None):
         """
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..545a9cf 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -332,6 +332,9 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # a collection that has no room must be found before any is changed
+        for index, collection in split_collection.items():
+            self.collections[index].check_update(collection)
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From faae8790653cc65a1944c6592aa1e79c606ffc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 004/101] fix: Group.minKey and maxKey must skip collections
 that have no such key

Both raised ValueError as soon as one collection of the group was empty or had
no key in the range, although other collections did; popitem failed with them.
---
 citrine/storage/group.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 545a9cf..a11d080 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -497,8 +497,14 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        keys = []
+        for collection in self.collections:
+            try:
+                keys.append(collection.maxKey(max))
+            except ValueError:
+                # this collection has no such key, but another one may
+                continue
+        return maximum(keys)
 
     def minKey(self, min=None):
         """
@@ -507,8 +513,14 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        keys = []
+        for collection in self.collections:
+            try:
+                keys.append(collection.minKey(min))
+            except ValueError:
+                # this collection has no such key, but another one may
+                continue
+        return minimum(keys)
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From f1d70b3a3296b54ebdd0ae36e29611a93523e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 005/101] fix: Group.popitem raises KeyError when the group is
 empty

The documentation promises a KeyError and Collection.popitem raises one, but
the ValueError of minKey got out.
---
 citrine/storage/group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index a11d080..f4be06e 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -353,7 +353,11 @@ class Group(Persistent):
         Pop a key from the collection and return the key-value pair
         :raise KeyError: if the key is not present in the collection
         """
-        return self.minKey(), self.pop(self.minKey())
+        try:
+            key = self.minKey()
+        except ValueError:
+            raise KeyError('popitem(): group is empty') from None
+        return key, self.pop(key)
 
     @groupfn
     def setdefault(self, key, value):
-- 
2.43.0


From 6baf7457ffc36aab2304869f4fcdba376f33f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 006/101] fix: Group.iterkeys, itervalues and iteritems must
 not drop items

They stopped as soon as every pending value was falsy, so an empty-string key
and any falsy or None values (0, '', [], None) were left out, and values that
cannot be compared with each other raised TypeError.
---
 citrine/storage/group.py | 63 ++++------------------------------------
 1 file changed, 6 insertions(+), 57 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index f4be06e..98f14f0 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -1,4 +1,5 @@
 import logging
+from heapq import merge
 from itertools import chain
 from math import ceil
 from uuid import uuid4
@@ -391,23 +392,7 @@ class Group(Persistent):
         :param max: the highest key to return
         :return: generator of key
         """
-        gens = [collection.iterkeys(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return (key for key, value in self.iteritems(min, max))
 
     def values(self):
         """
@@ -424,23 +409,7 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return (value for key, value in self.iteritems(min, max))
 
     def items(self):
         """
@@ -457,29 +426,9 @@ class Group(Persistent):
         :param max: the highest key in the items
         :return: generator of key-value pairs
         """
-        gens = [collection.iteritems(min, max)
-                for collection in self.collections]
-        keys = list()
-        items = dict()
-        for gen in gens:
-            try:
-                item = next(gen)
-                keys.append(item[0])
-                items[item[0]] = item[1]
-            except StopIteration:
-                keys.append(None)
-        while any(keys):
-            # get the lowest value
-            next_key = minimum((v for v in keys if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                item = next(gens[keys.index(next_key)])
-                keys[keys.index(next_key)] = item[0]
-                items[item[0]] = item[1]
-                yield next_key, items.pop(next_key)
-            except StopIteration:
-                keys[keys.index(next_key)] = None
-                yield next_key, items.pop(next_key)
+        return merge(*(collection.iteritems(min, max)
+                       for collection in self.collections),
+                     key=lambda item: item[0])
 
     def byValue(self, min=None):
         """
-- 
2.43.0


From 3c1c9a90c421fb7e05fb182675aa57d0133f087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 007/101] fix: Group.new must honour its strict argument

The group was always created non-strict; a strict container that was resized
lost its size limit, because resize creates the new primary with Group.new.
---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 98f14f0..90b00af 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -270,7 +270,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -290,7 +290,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 09bee24fb76be645eacb2791430dcdc6c3415465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 008/101] fix: Group.new must not change the caller's custom
 mapping

The default sizes that fill the gaps were written into the caller's dict.
---
 citrine/storage/group.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 90b00af..acbc5a3 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -272,6 +272,7 @@ class Group(Persistent):
                                 for _ in range(size))
             return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
+        custom = dict(custom)
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
             raise KeyError("Custom collection keys must be integers")
-- 
2.43.0


From ac2aebd45b297a9527f62fe0cf3f557570b56a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 009/101] fix: get_primes must stop at max

The comparison was inverted: with a max above min it yielded nothing, and with
a max below min it never stopped.
---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..907f1d2 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From 8bc811bc027a77e7f15be0e6ec4586a28bfb5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 010/101] fix: restore autocommit when a commit fails

A ConflictError (or any other failed commit) left autocommit off, so every
later create, update and delete on the connection was silently not committed.
---
 citrine/persistence.py         | 18 +++++++++--------
 citrine/storage/transaction.py | 36 +++++++++++++++++++---------------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..3de0033 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -38,14 +38,16 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class CitrineThreadTransactionManager(ThreadTransactionManager):
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..6a9c4d8 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,16 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +59,16 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From 62fdc16662245b987099e54598a8fd77e5a31986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 011/101] fix: Container.read must return falsy values

An object that is falsy (0, '', an empty list, None) was reported as missing,
or an older value of a secondary group was returned in its place.
---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 02777ca4c4cca16eab159d69b6d0c4fcd977a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 012/101] fix: Container.delete of an object that only some
 groups hold

Groups without the object raised KeyError, after the object had already been
removed from the groups before them.
---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..d2f901a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From 37c9aeaa11b1fcb42624355c18738460f57470e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 013/101] fix: the primary group always comes first in a
 Container

With the primary later in the groups, reads returned stale objects from a
secondary group, and condense treated another group as the primary and could
empty the real one into itself.
---
 citrine/storage/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d2f901a..77b0adc 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -186,8 +186,10 @@ class Container(Persistent, ContainerProperties):
         super().__init__()
         self.___primary___ = primary_group
         self.___groups___ = groups
-        if self.primary not in self.groups:
-            self.___groups___ = (self.primary,) + self.groups
+        # the primary always comes first: reads look there before any secondary
+        # group, and everything after it is condensed into it
+        self.___groups___ = (self.primary,) + tuple(
+            group for group in self.groups if group != self.primary)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From 66f61efab8eab20c8baf13eb98c347e248c9c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 014/101] fix: condense must not lose an object the primary
 group refuses

The object was popped from its group before the insert, so a strict primary
without room for it raised after the object was gone from every group.
---
 citrine/storage/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 77b0adc..8b73846 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -324,7 +324,10 @@ class Container(Persistent, ContainerProperties):
         source_groups = self.groups[1:]
 
         if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
+            # only take an object out once the primary holds it, the insert may
+            # be refused
+            fn = lambda group, key: (self.primary.insert(key, group.get(key)),
+                                     group.pop(key))
         else:
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
-- 
2.43.0


From b9889b977bd130574ee6e3b9f4dd195e93bac91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 015/101] fix: resize without condense must keep the secondary
 groups

They were set aside while the old primary was moved, so with a transaction
manager every committed state (and the last one) lacked them and their objects
could not be read, and an exception lost them for good.
---
 citrine/storage/container.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 8b73846..1097ea8 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -292,13 +292,10 @@ class Container(Persistent, ContainerProperties):
             removed = self.condense(transfer=transfer,
                                     transaction_manager=transaction_manager)
         else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # if we only want to move over the data from the old primary, all
+            # other groups stay where they are
+            removed = self._condense(self.groups[1:2], transfer=transfer,
+                                     transaction_manager=transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -321,8 +318,20 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self._condense(self.groups[1:], transfer=transfer,
+                              transaction_manager=transaction_manager)
+
+    def _condense(self, source_groups: Tuple[Group], transfer: bool = True,
+                  transaction_manager=None) -> List[Group]:
+        """
+        Condenses the given secondary groups into the primary group, every other
+        group stays as it is. See ``condense`` for more information.
 
+        :param source_groups: the secondary groups to condense
+        :param transfer: whether to empty and remove the source groups
+        :param transaction_manager: transaction manager to use, if any
+        :return: groups removed from the container
+        """
         if transfer:
             # only take an object out once the primary holds it, the insert may
             # be refused
@@ -343,14 +352,15 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            remaining = tuple(group for group in self.groups
+                              if group not in source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
-            return discarded
+                self.___groups___ = remaining
+            return list(source_groups)
         return []
 
     def has(self, id) -> int:
-- 
2.43.0


From 99bc792b4a08bf023ae565e4fb606f2be4daee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 016/101] fix: condense and resize move each object in its own
 transaction

The transaction that __enter__ returned was committed again for every object,
but it only covers what was done before its first commit, so all other objects
were moved in one single commit at the end, although each action is documented
to be an individual transaction.
---
 citrine/storage/container.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 1097ea8..2d964a2 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -341,11 +341,13 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
-                        fn(group, key)
-                        tm.commit()
+            for group in source_groups:
+                for key in list(group.keys()):
+                    with transaction_manager as tm:
+                        # may have been deleted since the keys were listed
+                        if group.has_key(key):
+                            fn(group, key)
+                            tm.commit()
         else:
             for group in source_groups:
                 for key in list(group.keys()):
-- 
2.43.0


From 114e2c9d9201365a352dfeb6f0c7125cbe437712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 017/101] fix: resize raises the documented ValueError for a
 capacity that is too small

---
 citrine/storage/container.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 2d964a2..7c9e580 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -264,6 +264,11 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        stored = {key for group in self.groups for key in group.keys()}
+        if capacity < len(stored):
+            raise ValueError(f'Cannot resize to {capacity}; container holds ' +
+                             f'{len(stored)} objects')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 7f41d767136da524e6ecbd986ff6650d5741ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 018/101] fix: a write that overlaps a resize must not be lost

A transaction that began before the new primary was committed could write to
the old primary after its objects had been moved; the group was then dropped
together with that acknowledged write. It now gets a conflict instead.
---
 citrine/storage/container.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7c9e580..7307b06 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -397,6 +397,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier for the object to be stored
         :param obj: the object to be stored
         """
+        self.__require_current()
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -407,9 +408,19 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
+        self.__require_current()
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
+    def __require_current(self):
+        """
+        Makes the running transaction conflict with one that changes the groups
+        of this container (``resize`` or ``condense``) before it is committed,
+        or the change could end up in a group that is no longer in use
+        """
+        if self._p_jar is not None:
+            self._p_jar.readCurrent(self)
+
     def __add__(self, other):
         """
         Combines either two containers or a container and a group. The
-- 
2.43.0


From de0e719d2683e4e786b0c0d96ce6a1878e453e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 019/101] fix: concurrent inserts must not exceed the capacity
 of a strict collection

Two transactions that each fit into a strict collection were both committed,
because the conflict resolution of the BTree merges different keys.
---
 citrine/storage/collection.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 6847360..e996898 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -152,6 +152,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        self.__claim_space()
         return self.tree.insert(key, value)
 
     def update(self, collection):
@@ -162,8 +163,18 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         self.check_update(collection)
+        self.__claim_space()
         return self.tree.update(collection)
 
+    def __claim_space(self):
+        """
+        In strict mode, makes concurrent transactions that add to the collection
+        conflict; the tree would merge their keys and exceed the capacity that
+        each of them respected
+        """
+        if self.strict:
+            self.meta._p_changed = True
+
     def check_update(self, collection):
         """
         Check that ``update`` can accept a set of key-value pairs without
@@ -212,6 +223,7 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        self.__claim_space()
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From fdd9e91dcf2715c63603a276582d674242b4cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 020/101] fix: ContainerDb must open paths, None and client
 storages

The constructor of DB ran twice: the second run could not lock the file of an
existing database that is given as a path, lost the container of a new in-memory
database (None), found its own name in a databases mapping, and a new client
storage had been closed in between.
---
 citrine/database/containerdb.py | 68 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..ebae9d6 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,6 +1,7 @@
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
+from ZODB.MappingStorage import MappingStorage
 from ZODB.POSException import POSKeyError
 
 from citrine.connection.container_connection import ContainerConnection
@@ -98,36 +99,18 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
-        try:
-            super().__init__(
-                storage=storage, pool_size=pool_size,
-                pool_timeout=pool_timeout, cache_size=cache_size,
-                cache_size_bytes=cache_size_bytes,
-                historical_pool_size=historical_pool_size,
-                historical_cache_size=historical_cache_size,
-                historical_cache_size_bytes=historical_cache_size_bytes,
-                historical_timeout=historical_timeout,
-                database_name=database_name, databases=databases,
-                xrefs=xrefs, large_record_size=large_record_size,
-                **storage_args)
-        except POSKeyError:
-            # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
-                self.close()
-            db = DB(storage)
-            conn = db.open()
-            with conn.transaction_manager as tm:
-                # if this exists, do nothing, the exception is unrelated to
-                # the database being new!!
-                if not getattr(conn.root, 'container', None):
-                    conn.root.container = Container.new()
-                    tm.commit()
-            conn.close()
-            if not isinstance(storage, FileStorage):
-                db.close()
-        super().__init__(
-            storage=storage, pool_size=pool_size,
+        # a path or None is only resolved once, every attempt needs to use the
+        # same storage
+        owned = storage is None or isinstance(storage, str)
+        if storage is None:
+            storage = MappingStorage(**storage_args)
+        elif owned:
+            storage = FileStorage(storage, **storage_args)
+        elif storage_args:
+            raise TypeError(f'Unexpected arguments: {", ".join(storage_args)}')
+
+        settings = dict(
+            pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
             cache_size_bytes=cache_size_bytes,
             historical_pool_size=historical_pool_size,
@@ -135,8 +118,29 @@ class ContainerDb(DB):
             historical_cache_size_bytes=historical_cache_size_bytes,
             historical_timeout=historical_timeout,
             database_name=database_name, databases=databases,
-            xrefs=xrefs, large_record_size=large_record_size,
-            **storage_args)
+            xrefs=xrefs, large_record_size=large_record_size)
+        try:
+            try:
+                super().__init__(storage=storage, **settings)
+            except POSKeyError:
+                # the db is newly created, it needs a container before a
+                # ``ContainerConnection`` can be opened
+                if databases is not None:
+                    databases.pop(database_name, None)
+                conn = DB(storage).open()
+                with conn.transaction_manager as tm:
+                    # if this exists, do nothing, the exception is unrelated to
+                    # the database being new!!
+                    if not getattr(conn.root, 'container', None):
+                        conn.root.container = Container.new()
+                        tm.commit()
+                conn.close()
+                super().__init__(storage=storage, **settings)
+        except Exception:
+            if owned:
+                # nobody else is able to close it and release the file
+                storage.close()
+            raise
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From 20e4397320a0bf25b03d0e0ae76837a44fe81daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 021/101] fix: ContainerDb.create and new must honour their
 strict argument

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index ebae9d6..faae6ac 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -182,7 +182,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 299e557aeb762cb44842494a6a3904e0d9984a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 022/101] fix: ContainerDb.create must not discard the objects
 of an existing file

Without create=True an existing file is opened, but its container was replaced
with an empty one, which made every stored object unreachable.
---
 citrine/database/containerdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index faae6ac..0919d42 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -190,8 +190,10 @@ class ContainerDb(DB):
         # store the container in the database
         conn = DB(storage).open()
         with conn.transaction_manager as tm:
-            conn.root.container = container
-            tm.commit()
+            # an existing file that is not created anew keeps its contents
+            if not getattr(conn.root, 'container', None):
+                conn.root.container = container
+                tm.commit()
         conn.close()
         return storage
 
-- 
2.43.0


From 7554a5d4616d4bae435187cb42b30fb9ba48ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 023/101] fix: honour strict when a ContainerDb creates its
 first container

strict is documented for the constructor of ContainerDb but was refused as an
unknown storage argument, and ContainerClient.connect dropped it.
---
 citrine/client/container_client.py |  2 +-
 citrine/database/containerdb.py    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..424597f 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -188,7 +188,7 @@ class ContainerClient(ContainerDb):
             historical_cache_size_bytes=historical_cache_size_bytes,
             historical_timeout=historical_timeout, database_name=database_name,
             databases=databases, xrefs=xrefs,
-            large_record_size=large_record_size)
+            large_record_size=large_record_size, strict=strict)
 
         # If not connection.container and create==True, create a new Container
         with client as connection:
diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 0919d42..157d3ef 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -36,7 +36,7 @@ class ContainerDb(DB):
                  historical_cache_size_bytes: int = 0,
                  historical_timeout: int = 300, database_name: str = 'unnamed',
                  databases: dict = None, xrefs: bool = True,
-                 large_record_size: int = 16777216,
+                 large_record_size: int = 16777216, strict: bool = False,
                  **storage_args):
         """
         Creates a database object that uses a ``Container`` as a way of
@@ -93,7 +93,8 @@ class ContainerDb(DB):
         larger than this, a warning is issued, suggesting that blobs should
         be used instead.
 
-        :param strict: Whether to enforce size maximums via exceptions
+        :param strict: Whether to enforce size maximums via exceptions, only
+        applies when the database is new
 
         :param storage_args: Extra keyword arguments passed to a
              storage constructor if a path name or None is passed as
@@ -132,7 +133,7 @@ class ContainerDb(DB):
                     # if this exists, do nothing, the exception is unrelated to
                     # the database being new!!
                     if not getattr(conn.root, 'container', None):
-                        conn.root.container = Container.new()
+                        conn.root.container = Container.new(strict=strict)
                         tm.commit()
                 conn.close()
                 super().__init__(storage=storage, **settings)
@@ -205,7 +206,7 @@ class ContainerDb(DB):
              historical_cache_size_bytes: int = 0,
              historical_timeout: int = 300, database_name: str = 'unnamed',
              databases: dict = None, xrefs: bool = True,
-             large_record_size: int = 16777216):
+             large_record_size: int = 16777216, strict: bool = False):
         """
         Load a ``ContainerDb`` from the provided location
 
@@ -260,6 +261,9 @@ class ContainerDb(DB):
         larger than this, a warning is issued, suggesting that blobs should
         be used instead.
 
+        :param strict: Whether to enforce size maximums via exceptions, only
+        applies when the database is new
+
         :return: ``ContainerDb`` at the location
         """
         return cls(storage, pool_size=pool_size, pool_timeout=pool_timeout,
@@ -270,7 +274,7 @@ class ContainerDb(DB):
                    historical_timeout=historical_timeout,
                    database_name=database_name,
                    databases=databases, xrefs=xrefs,
-                   large_record_size=large_record_size)
+                   large_record_size=large_record_size, strict=strict)
 
     @classmethod
     def new(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From aa8cca25a5ef3830b478dc69829b45026c96c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 024/101] fix: with blocks of a ContainerDb must each close
 their own connection

The connection was kept in a single attribute of the database, so nested blocks
and blocks of other threads closed the connection of someone else and left their
own open. A block that failed with uncommitted changes raised
ConnectionStateError instead of the exception and leaked its connection.
---
 citrine/database/containerdb.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 157d3ef..45a3c22 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+from threading import local
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -100,6 +102,9 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        # connections of the ``with`` blocks each thread is in, innermost last
+        self.__context_managers = local()
+
         # a path or None is only resolved once, every attempt needs to use the
         # same storage
         owned = storage is None or isinstance(storage, str)
@@ -392,8 +397,15 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        connections = getattr(self.__context_managers, 'connections', None)
+        if connections is None:
+            connections = self.__context_managers.connections = []
+        connections.append(self.open())
+        return connections[-1]
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        connection = self.__context_managers.connections.pop()
+        if exc_type is not None:
+            # unfinished changes must not keep the connection open
+            connection.transaction_manager.abort()
+        connection.close()
-- 
2.43.0


From 4a3357b1f710cbcc70ebbf910b8b1cca79c16b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 025/101] fix: indexing a connection with several ids must
 accept falsy objects

A KeyError claimed that nothing was found when all objects found were falsy.
---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From ae009872c6f4e273efc9d4361da15c3aee165839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 026/101] fix: autocommit of a connection must match what the
 connection does

autocommit=False was ignored by the constructor of ContainerConnection, and a
connection reused from the pool still reported the autocommit of its previous
user although its new transaction manager commits automatically.
---
 citrine/connection/container_connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index d88131b..0b54402 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -133,7 +133,8 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        return getattr(self.transaction_manager, 'autocommit',
+                       self.___autocommit___)
 
     @autocommit.setter
     def autocommit(self, value):
@@ -155,11 +156,11 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         super().__init__(db=db, cache_size=cache_size, before=before,
                          cache_size_bytes=cache_size_bytes)
         self.___metadata___ = ContainerConnectionMeta(self)
-        self.___autocommit___ = autocommit
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
         self.open(self.transaction_manager)
+        self.autocommit = autocommit
 
         self.___root___ = self.root
 
-- 
2.43.0


From cba6a02068b9c592ab63de5cf28f05324ae84ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 027/101] fix: GroupReadConnection duplicates, multiple results
 and timeouts

The error for an id that several databases hold was created but not raised,
multiple=True called a method that tasks do not have, and a timeout used a plain
with on asynchronous context managers (and dropped fractions and days of it).
---
 citrine/connection/group_connection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From 53443945680a7d32f600891602778e93a1f002bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 028/101] fix: connection_args of GroupReadConnection override
 the defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From f3f31e654acdb61a4c1a1ef87fe37cab5f5aaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 029/101] fix: DbContainer.expand_size must keep stored objects
 reachable

The container of an object follows from its id and the number of containers, but
the objects stayed where they were when that number changed.
---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 3de0033..b93594d 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -121,10 +121,14 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        previous = self.containers
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        # the location of an object depends on the number of containers
+        for container in previous.values():
+            for id, obj in container.items():
+                self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From b13acb8ff0eba6e4462d85c2f8dbe6627bc47905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 030/101] fix: opening a connection leaves autocommit of its
 transaction manager alone

Only autocommit=False has to be passed on, the manager may be in a transaction
block.
---
 citrine/connection/container_connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 0b54402..7786945 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -156,11 +156,13 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         super().__init__(db=db, cache_size=cache_size, before=before,
                          cache_size_bytes=cache_size_bytes)
         self.___metadata___ = ContainerConnectionMeta(self)
+        self.___autocommit___ = autocommit
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
         self.open(self.transaction_manager)
-        self.autocommit = autocommit
+        if not autocommit:
+            self.autocommit = False
 
         self.___root___ = self.root
 
-- 
2.43.0


From cd959bee817c6d879cd1ff622253e607071f8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 031/101] fix: create_dbmodule with overwrite must replace an
 existing module

mkdir raised FileExistsError for every module that exists.
---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..7f2c3a1 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,10 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From 6d813d185bd762d3d6b2c9d1a45f7b2e12344868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 032/101] fix: DbModule.create passed overwrite as discoverable

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 7f2c3a1..c0c32f2 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -178,7 +178,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From 436744d3b27e56bf8c8946bbb08d64333f0f60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 033/101] fix: delete_dbmodule must not delete unrelated files
 for a path ending in /

The module name became empty for such a path (and '.' for the working
directory), and every file name starts with an empty name.
---
 citrine/cluster_tools/dbmodule/dbmodule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index c0c32f2..cb508ab 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, basename, join, exists, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -58,7 +58,7 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    name = basename(abspath(path))
     affected = [join(path, file) for file in listdir(path)
                 if (isfile(join(path, file)) and file.startswith(name))
                     or file == '__init__.py']
-- 
2.43.0


From b8d82fa9f4f1f58bf82748fbd28efe89c562c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 034/101] fix: delete_dbmodule only deletes the files of its
 own database

Any file whose name merely begins with the module name was deleted as well.
---
 citrine/cluster_tools/dbmodule/dbmodule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index cb508ab..851ef7a 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -60,7 +60,8 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
         return
     name = basename(abspath(path))
     affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
+                if (isfile(join(path, file))
+                    and (file == name or file.startswith(f'{name}.')))
                     or file == '__init__.py']
     for file in affected:
         remove(file)
-- 
2.43.0


From cd71841792043cebc4aa157e5cce07c7a0608e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 035/101] fix: strict Group.update must not refuse to overwrite
 existing keys

---
 citrine/storage/group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index acbc5a3..e6fb228 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -324,8 +324,10 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = tuple(key for key in collection.keys()
+                         if key not in self.keys())
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
-- 
2.43.0


From 8f9072fabc69f15f9121ce9117e6d0190ad408f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 036/101] fix: an object deleted while it is being copied must
 not come back

Condensing with transfer=False only adds to the primary group, deleting an
object that only a secondary group holds only removes it from there: nothing
made the two transactions conflict, and the deleted object was restored.
---
 citrine/storage/container.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7307b06..35d3d00 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -343,7 +343,7 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: (self.primary.insert(key, group.get(key)),
                                      group.pop(key))
         else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+            fn = lambda group, key: self.__copy(group, key)
 
         if transaction_manager:
             for group in source_groups:
@@ -370,6 +370,15 @@ class Container(Persistent, ContainerProperties):
             return list(source_groups)
         return []
 
+    def __copy(self, group: Group, key):
+        """
+        Copies an object of a secondary group into the primary group
+        """
+        # the copy does not change the source, so it has to be made to conflict
+        # with a transaction that deletes the object meanwhile
+        self._p_changed = True
+        return self.primary.insert(key, group.get(key))
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
@@ -409,6 +418,9 @@ class Container(Persistent, ContainerProperties):
         :return: removed object
         """
         self.__require_current()
+        if any(group.has_key(id) for group in self.groups[1:]):
+            # the object may be copied into the primary group meanwhile
+            self._p_changed = True
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
-- 
2.43.0


From 890dd94d044fae3756a3103aa6f56b7edb16b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 037/101] fix: create and update must accept obj as a keyword
 argument

---
 citrine/persistence.py         | 8 ++++----
 citrine/storage/transaction.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index b93594d..d082632 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -70,15 +70,15 @@ def autocommit(fn):
     :return:
     """
 
-    def decorator(obj, id, *args, **kwargs):
-        tm = obj.transaction_manager
+    def decorator(connection, id, *args, **kwargs):
+        tm = connection.transaction_manager
         if not tm.autocommit:
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(connection, id, *args, **kwargs)
         with tm:
             tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(connection, id, *args, **kwargs)
 
     return decorator
 
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index 6a9c4d8..f416568 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -80,14 +80,14 @@ def autocommit(fn):
     :return:
     """
 
-    def decorator(obj, id, *args, **kwargs):
-        tm = obj.transaction_manager
+    def decorator(connection, id, *args, **kwargs):
+        tm = connection.transaction_manager
         if not tm.autocommit:
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(connection, id, *args, **kwargs)
         with tm:
             tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(connection, id, *args, **kwargs)
 
     return decorator
\ No newline at end of file
-- 
2.43.0


From 864a1cdf5a68cbe24a7785988911669f999ecbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 038/101] fix: a ContainerDb that cannot be opened must not
 stay in databases

DB.__init__ adds the database to the mapping of a multi-database before its
container is looked for, so an incompatible database was left in it.
---
 citrine/database/containerdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 45a3c22..fe57637 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -143,6 +143,9 @@ class ContainerDb(DB):
                 conn.close()
                 super().__init__(storage=storage, **settings)
         except Exception:
+            # an unusable database must not be found by the others
+            if databases is not None and databases.get(database_name) is self:
+                del databases[database_name]
             if owned:
                 # nobody else is able to close it and release the file
                 storage.close()
-- 
2.43.0


From 28be68ccb8b3169a70d476b472d96bc5561d0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 039/101] fix: generated database modules imported a class that
 does not exist

They could neither be found nor opened. They open a ContainerDb now, which
sets itself up if its file is new.
---
 citrine/cluster_tools/dbmodule/consts.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..3a98420 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -5,11 +5,11 @@ Constant strings for cluster tools, mostly boilerplate for generating files
 DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
-from os.path import dirname, exists, join, split
-from citrine import CitrineDB
-DB_ID = split(dirname(__file__))[1]
+from os.path import abspath, dirname, join, split
+from citrine.database.containerdb import ContainerDb
+DB_ID = split(abspath(dirname(__file__)))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = True
 '''
@@ -17,11 +17,11 @@ DISCOVERABLE = True
 DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
-from os.path import dirname, exists, join, split
-from citrine import CitrineDB
-DB_ID = split(dirname(__file__))[1]
+from os.path import abspath, dirname, join, split
+from citrine.database.containerdb import ContainerDb
+DB_ID = split(abspath(dirname(__file__)))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = False
 '''
-- 
2.43.0


From ef14c6e47b85db1e8b3a29cf8ca079aa2fd974b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 040/101] fix: the size of a DbModule failed, connections have
 no size

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 851ef7a..0ac8ec3 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -144,7 +144,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 0b78940899a1157982da8f4d9da87fee7ad6623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 041/101] fix: DbGroup kept destroyed modules open and listed
 them

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..fe1326e 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -76,6 +76,9 @@ class DbGroup:
         Destroys a db object from the pool entirely. This action is irreversible
         :param name: The name of the database to be destroyed
         """
+        module = self.modules.pop(name, None)
+        if module is not None:
+            module.db.close()
         DbModule.destroy(join(self.root, name))
 
     @staticmethod
-- 
2.43.0


From 9307fa1ae808874cbcf2f67870193d377c6b60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 042/101] fix: DbGroup left the database of an overwritten
 module open

Its file is replaced, everything written through the old one was lost.
---
 citrine/cluster_tools/dbmodule/dbgroup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index fe1326e..6ec2d62 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -67,6 +67,9 @@ class DbGroup:
         path is specified, the directory of execution will be used
         :param name: The name to assign the database
         """
+        replaced = self.modules.get(name) if overwrite else None
+        if replaced is not None:
+            replaced.db.close()
         new = DbModule.create(self.root, name=name, overwrite=overwrite)
         self.modules[new.name] = new
         return new
-- 
2.43.0


From bf0f71e498dcfd2a5344016f23ba3089a0026829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 043/101] fix: properties after Object refused objects

The name Object is the property of that name from there on.
---
 activitystreams/properties.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..dca7df7 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1341,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1357,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1373,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 407338f91e9def1f8f76b34834519fef6a874521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 044/101] fix: objects of the types Object and Link were not
 recognized

Packages replace the type of these classes with a property, which became a part
of the namespace they are registered under.
---
 activitystreams/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..975bde8 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -20,6 +20,15 @@ ACTIVITYSTREAMS_NS = 'https://www.w3.org/ns/activitystreams'
 SECURE_URLS_ONLY = False
 
 
+def type_name(cls):
+    """
+    The name of the type a class represents. Packages replace the attribute of
+    the class with the property of the same name, the original has to be used.
+    """
+    return next(kls.__dict__['type'] for kls in cls.mro()
+                if isinstance(kls.__dict__.get('type'), str))
+
+
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
 # CORE TYPES
 #   REF: https://www.w3.org/TR/activitystreams-vocabulary/#types
@@ -42,7 +51,7 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -99,7 +108,7 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From 5684b84fa4f63c1a2451ec42084926dc7f2b3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 045/101] fix: the type given to an Object or Link was dropped

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 975bde8..aee35a9 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -64,7 +64,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -128,7 +128,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 6ace2ea885a93780360d093081b322b6500489a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 046/101] fix: data of an unknown type failed with
 AttributeError instead of ValueError

---
 jsonld/engine/json_input.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..258b241 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -61,10 +61,7 @@ class PropertyJsonIntake:
             class_type = 'default'
 
         # gets the class for the object that needs to be created from the
-        object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
-        return object_class
+        return self.class_registry.get(class_type)
 
     def _unpack_objects(self, data, context):
         """
@@ -112,6 +109,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From 44a8bb94e9270bd223f4ea88d06a179f2f738344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 047/101] fix: the items of a Collection were never set

The property of the package was taken for a value of an inheritor. The number
of items is counted without opening links, and a given number is kept if it
is 0.
---
 activitystreams/models.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index aee35a9..7f67caf 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -7,7 +7,6 @@ handled correctly.
 # Vocabulary document. This whole module is intentionally barely one level of
 # abstraction from the spec
 import logging
-from collections.abc import Sized
 
 from jsonld import ApplicationActivityJson
 from jsonld import jsonld_get
@@ -359,15 +358,14 @@ class Collection(Object):
         self.current = current
         self.first = first
         self.last = last
-        # some inheritors may override this with more specific orderings,
-        # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        self.items = items
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
-        )
+        if totalItems is None:
+            totalItems = len(items) if isinstance(items, (list, tuple, set)) \
+                else 0
+        self.totalItems = totalItems
 
     def __iter__(self):
         if not self.items:
-- 
2.43.0


From ae82ba44b688a5dc49c457184826ab9ecd5399fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 048/101] fix: an OrderedCollectionPage dropped its items

---
 activitystreams/models.py | 43 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 7f67caf..ee5a28f 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -460,28 +460,27 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                  first=None, last=None, items=None, partOf=None, next=None,
                  prev=None, startIndex=None, orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
-        # OrderedCollection has no special handling in its init that
-        # CollectionPage doesn't already do
-        OrderedCollection.__init__(self, orderedItems=orderedItems)
-        CollectionPage.__init__(self, id=id, type=type,
-                                attachment=attachment,
-                                attributedTo=attributedTo,
-                                audience=audience,
-                                content=content, context=context,
-                                name=name,
-                                endTime=endTime, generator=generator,
-                                icon=icon,
-                                image=image, inReplyTo=inReplyTo,
-                                location=location, preview=preview,
-                                published=published, replies=replies,
-                                startTime=startTime, summary=summary,
-                                tag=tag, updated=updated, url=url, to=to,
-                                bto=bto,
-                                cc=cc, bcc=bcc, mediaType=mediaType,
-                                duration=duration, totalItems=totalItems,
-                                current=current, first=first, last=last,
-                                partOf=partOf, next=next, prev=prev,
-                                acontext=acontext)
+        # OrderedCollection passes what it does not know to CollectionPage
+        OrderedCollection.__init__(self, id=id, type=type,
+                                   attachment=attachment,
+                                   attributedTo=attributedTo,
+                                   audience=audience,
+                                   content=content, context=context,
+                                   name=name,
+                                   endTime=endTime, generator=generator,
+                                   icon=icon,
+                                   image=image, inReplyTo=inReplyTo,
+                                   location=location, preview=preview,
+                                   published=published, replies=replies,
+                                   startTime=startTime, summary=summary,
+                                   tag=tag, updated=updated, url=url, to=to,
+                                   bto=bto,
+                                   cc=cc, bcc=bcc, mediaType=mediaType,
+                                   duration=duration, totalItems=totalItems,
+                                   current=current, first=first, last=last,
+                                   orderedItems=orderedItems, items=items,
+                                   partOf=partOf, next=next, prev=prev,
+                                   acontext=acontext)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From e65fb8958aff07cefe163bb6a6bc94637e555018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 049/101] fix: the items of an OrderedCollection were not
 counted

---
 activitystreams/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index ee5a28f..fc5868e 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -390,6 +390,9 @@ class OrderedCollection(Collection):
                  mediaType=None, duration=None, totalItems=None, current=None,
                  first=None, last=None, orderedItems=None, items=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
+        if totalItems is None and not items \
+                and isinstance(orderedItems, (list, tuple, set)):
+            totalItems = len(orderedItems)
         super().__init__(id=id, type=type, attachment=attachment,
                          attributedTo=attributedTo, audience=audience,
                          content=content, context=context, name=name,
-- 
2.43.0


From 7f9c0ba0c022662272f3bda25dd7dc2617f022fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 050/101] fix: iterating over a Collection failed without items
 and skipped ordered ones

---
 activitystreams/models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index fc5868e..b986293 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -368,10 +368,11 @@ class Collection(Object):
         self.totalItems = totalItems
 
     def __iter__(self):
-        if not self.items:
-            yield
-        for item in self.items:
-            yield item
+        for items in (getattr(self, 'orderedItems', None), self.items):
+            if isinstance(items, (list, tuple, set)):
+                yield from items
+            elif items:
+                yield items
 
 
 class OrderedCollection(Collection):
-- 
2.43.0


From ec696255dfbcf95da21b394d2fc23e63969d5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 051/101] fix: the language of a Link was stored where it was
 not found again

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index dca7df7..f9e3216 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1027,7 +1027,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From 7b4b3f4cd2e8aa0c54d748534458ff4eaa294112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 052/101] fix: the id of a Link was dropped

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index b986293..b780538 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -112,12 +112,13 @@ class Link(ApplicationActivityJson):
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
                  context=None, type=None,
-                 acontext=ACTIVITYSTREAMS_NS,
+                 acontext=ACTIVITYSTREAMS_NS, id=None,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
         # __get_properties__ on classes
         ApplicationActivityJson.__init__(self, acontext=acontext)
+        self.id = id
         self.href = href
         self.rel = rel
         self.mediaType = mediaType
-- 
2.43.0


From 9f0d19e7f663297bd139dd7bdbdcb41620f45982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 053/101] fix: the former type of a Tombstone was dropped

It was set as an attribute of another name, and the names of types, which is
what documents have there, were refused.
---
 activitystreams/models.py     | 5 +++--
 activitystreams/properties.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index b780538..0ca173a 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -928,9 +928,10 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = formerType if former_type is None else former_type
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index f9e3216..4632a0f 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1389,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(models.Object,)).check
+    @SetterValidator(types=(models.Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 9d8515603c3f62a0ab7a8f486c95033380465851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 054/101] fix: deleted and closed refused the dates of
 documents

---
 activitystreams/properties.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 4632a0f..8366526 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -618,9 +618,11 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
-        self.___closed___ = val
+        self.___closed___ = parse_activitystream_datetime(val) \
+            if isinstance(val, str) else val
 
 
 class Origin(ActivityStreamsProperty):
@@ -1412,7 +1414,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 148ba8d9fb6caed9fd0e2f5b88f7c816eee85dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 055/101] fix: booleans and missing list items were written as
 text

---
 jsonld/jsonld.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..8330bd5 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -5,6 +5,7 @@ import logging
 import json
 from collections.abc import Iterable
 from numbers import Number
+from types import NoneType
 
 from jsonld.base import PropertyAwareObject, contextualproperty
 from jsonld.utils import JSON_LD_KEYMAP, JSON_DATA_CONTEXT
@@ -46,6 +47,8 @@ class PropertyJsonLD(PropertyAwareObject):
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
+        NoneType: lambda val, *args, **kwargs: val,
         list: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         set: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         tuple: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
-- 
2.43.0


From 4e18052187b9c436ebc16c8b361bddaf6714a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 056/101] fix: the context of nested objects would be left out

A string excludes every property whose name is a part of it.
---
 jsonld/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 8330bd5..65e0692 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -58,7 +58,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From 45f4f02b34cb497807031d97ef5d20fd049c1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 057/101] fix: the context property was not a property of
 Object

Documents lost it.
---
 activitystreams/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/activitystreams/package.py b/activitystreams/package.py
index 79acb17..00856d9 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -134,6 +134,7 @@ property_mapping = {
                                         properties.AttributedTo.__get_namespace__(),
                                         properties.Audience.__get_namespace__(),
                                         properties.Content.__get_namespace__(),
+                                        properties.Context.__get_namespace__(),
                                         properties.Name.__get_namespace__(),
                                         properties.EndTime.__get_namespace__(),
                                         properties.Generator.__get_namespace__(),
-- 
2.43.0


From b8b1b83c730810974cd80bccc63b926ed9bac2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 058/101] fix: dates of other timezones were written as if they
 were UTC

Microseconds were dropped, and years before 1000 written with too few digits.
---
 jsonld/tools/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..5ecaa04 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -74,6 +74,6 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement handling for timezone-aware datetimes
-    # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    if obj.utcoffset() is not None:
+        obj = obj.astimezone(timezone.utc)
+    return obj.replace(tzinfo=None).isoformat() + 'Z'
-- 
2.43.0


From 2716d9dbe3982b67accb929f46b69ecdaf6cee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 059/101] fix: negative and zero durations were malformed

Fractions of seconds were dropped.
---
 jsonld/tools/datetime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 5ecaa04..6b43e52 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -49,12 +49,16 @@ def timedelta_str(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    if obj < timedelta(0):
+        return f'-{timedelta_str(-obj)}'
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06}'
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
@@ -65,7 +69,8 @@ def timedelta_str(obj) -> str:
           (f'{seconds}S' if seconds else '')
     # The entire HMS section is optional, however we ALWAYS need at least the
     # "P" from the ymd section (indicates this is a "period")
-    return f'{ymd}{hms if len(hms) > 1 else ""}'
+    text = f'{ymd}{hms if len(hms) > 1 else ""}'
+    return text if text != 'P' else 'PT0S'
 
 
 def datetime_str(obj: datetime) -> str:
-- 
2.43.0


From 9d39942ddb7c7479fe1b09b4144c8f5b32955fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 060/101] fix: dates in lists were not written in the format of
 dates

---
 jsonld/jsonld.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 65e0692..8b38385 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -4,9 +4,11 @@ Tools for working with json-ld data
 import logging
 import json
 from collections.abc import Iterable
+from datetime import datetime
 from numbers import Number
 from types import NoneType
 
+from jsonld.tools.datetime import datetime_str
 from jsonld.base import PropertyAwareObject, contextualproperty
 from jsonld.utils import JSON_LD_KEYMAP, JSON_DATA_CONTEXT
 
@@ -59,6 +61,8 @@ class PropertyJsonLD(PropertyAwareObject):
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
             return value.data(exclude=('acontext',))
+        if isinstance(value, datetime):
+            return datetime_str(value)
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From f9aa724275141356f403fd87ea1a4ccc30e90d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 061/101] fix: only the first character of the host of a url
 was validated

---
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..ae14d75 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From bbc35650aabeaa3dac41b1586d340f0f2e645dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 062/101] fix: the document loader checked only the first
 character of the host

---
 jsonld/docloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
-- 
2.43.0


From 5171e08e634a04cf51f01d3e298023531a8bd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 063/101] fix: documents without @context could not be loaded

The default context has an address that the document loader refuses.
---
 jsonld/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/utils.py b/jsonld/utils.py
index a852f12..77eb3f3 100644
--- a/jsonld/utils.py
+++ b/jsonld/utils.py
@@ -33,7 +33,7 @@ JSON_LD_KEYMAP = {
 }
 
 DEFAULT_TYPE = 'https://www.w3.org/ns/activitystreams#Object'
-DEFAULT_CONTEXT = "http://www.w3.org/ns/activitystreams#"
+DEFAULT_CONTEXT = "https://www.w3.org/ns/activitystreams"
 
 DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
-- 
2.43.0


From 4bf4aa4b0e597c9e6f2e4e52cb93684107b87b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 064/101] fix: packages without property mapping could not be
 created

This includes all that are combined from others.
---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..80b3534 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping if property_mapping else {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From 88a0146632a8ecbccf93605fdad9ddc74eead330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 065/101] fix: subtracting a package dropped all properties

---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 80b3534..0ba6370 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -167,7 +167,7 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
         return JsonLdPackage(namespace=self.namespace,
-- 
2.43.0


From ffef82ee8773a15a1d6283249d968b06e89d801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 066/101] fix: an engine could not be created from several
 packages

---
 jsonld/engine/jsonld_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..eb0a9b7 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -17,7 +17,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = tuple(packages) if isinstance(packages, Iterable) \
+            else (packages,)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
-- 
2.43.0


From b5cc0000bfb360b5d2a0e6a0a391f311010c28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 067/101] fix: packages could not be added to or subtracted
 from an engine

---
 jsonld/engine/jsonld_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index eb0a9b7..a03a6ea 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -91,7 +91,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -103,10 +103,10 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(self.package - other)
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            return JsonLdEngine(self.package - other.package)
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From 157acf7d1c26d4f6f8c015463a51b6e6b79e8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 068/101] fix: taking over an object could change the namespace
 of other classes

---
 jsonld/kamino.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..0cb5fa0 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -112,6 +112,9 @@ class ClassCloner:
                  for name in getattr(obj, '__properties__', ())}
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
+        # belongs to the class; setting it would give the namespace of the
+        # class to all of its children
+        data.pop('__namespace__', None)
         obj.__class__ = new_class
         obj.__properties__ = obj.__get_properties__(refresh=True)
         for name, val in data.items():
-- 
2.43.0


From 59900c0aa2c177f47ec6eca2587a53359b293138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 069/101] fix: classes missed their properties once an object
 of a parent class existed

---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..34ea53e 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -321,7 +321,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        # those of a parent are not all of its own
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From de1141d69d4d6bf43c54794861d5f9fb9cd1ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 070/101] fix: the namespace of the class was written with
 include_none

---
 jsonld/jsonld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 8b38385..2392f95 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -93,8 +93,10 @@ class PropertyJsonLD(PropertyAwareObject):
                 # change name of property, if provided in mapping
                 rename.get(prop, prop): self.__handler(getattr(self, prop, None))
                 for prop in self.__properties__
+                # never part of the data
+                if prop != '__namespace__'
                 # if include_null is True or the property is not None
-                if (include_none or getattr(self, prop) is not None)
+                   and (include_none or getattr(self, prop) is not None)
                    # AND if including everything OR if specifically included
                    and (not include or prop in include)
                    # AND if excluding nothing OR if not specifically excluded
-- 
2.43.0


From 3f124ebf964bae822cf0819eb810d00587c00ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 071/101] fix: malformed urls raised an exception instead of
 being invalid

---
 jsonld/engine/utils.py | 6 +++++-
 jsonld/tools/url.py    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index ae14d75..61efa54 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -24,7 +24,11 @@ def validate_url(url, secure: bool = False):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference malformed url')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index b053ed4..16ba1e0 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -38,7 +38,11 @@ def validate_url(url, secure: bool = False, **kwargs):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference malformed url')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
-- 
2.43.0


From ebc8df64ac5730497e7647d9efd6a2fa9c9783ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 072/101] fix: strict set on a connection was dropped by its
 next operation

---
 citrine/connection/container_connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 7786945..dd95560 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -125,7 +125,13 @@ class ContainerConnectionProperties:
     def strict(self, value):
         if not isinstance(value, bool):
             raise TypeError("'strict' must be a boolean")
-        self.container.strict = value
+        if not self.autocommit:
+            self.container.strict = value
+            return
+        # the next operation begins a transaction of its own, which would drop
+        # an uncommitted change
+        with self.transaction_manager:
+            self.container.strict = value
 
     @property
     def autocommit(self) -> bool:
-- 
2.43.0


From 7155abee6d7c3690d355a3f3f6315834e9e52708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 073/101] fix: answers with an error status were taken (and
 kept) as documents

---
 jsonld/docloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index cd27967..61e11c2 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -76,6 +76,8 @@ class RequestsJsonLoader:
 
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
         response = requests.get(url, headers=self.headers)
+        # the body of an error is not the document that was asked for
+        response.raise_for_status()
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 45931f346fdd8b5c6948bdeb9e883c967716bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:32 +0000
Subject: [PATCH 074/101] fix: secure loaders took documents from redirects
 without https

---
 jsonld/docloader.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 61e11c2..f8432c5 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -47,11 +47,10 @@ class RequestsJsonLoader:
                 'jsonld.LoadDocumentError', code='loading document failed',
                 cause=cause)
 
-    def get(self, url):
+    def check_url(self, url):
         """
-        Retrieves JSON-LD at the given URL.
-        :param url: the URL to retrieve.
-        :return: the RemoteDocument.
+        Raises a ValueError if a document cannot be retrieved from the URL.
+        :param url: the URL to check.
         """
         pieces = parse.urlparse(url)
         # urls must start with "http" or "https"
@@ -74,10 +73,20 @@ class RequestsJsonLoader:
                              'secure=True; set secure=False or change scheme' +
                              f';\ngot: "{url}"')
 
+    def get(self, url):
+        """
+        Retrieves JSON-LD at the given URL.
+        :param url: the URL to retrieve.
+        :return: the RemoteDocument.
+        """
+        self.check_url(url)
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
         response = requests.get(url, headers=self.headers)
         # the body of an error is not the document that was asked for
         response.raise_for_status()
+        # redirects must not lead a secure connection to unsafe addresses
+        for answer in (*response.history, response):
+            self.check_url(answer.url)
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 9262ec40d39e2f55a6a3a5209a3ec305194c9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 075/101] fix: values of subclasses of str, int and dict were
 written as lists or texts

---
 jsonld/jsonld.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 2392f95..211da9f 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -63,8 +63,10 @@ class PropertyJsonLD(PropertyAwareObject):
             return value.data(exclude=('acontext',))
         if isinstance(value, datetime):
             return datetime_str(value)
-        if type(value) in self.__data_handler_fns.keys():
-            return self.__data_handler_fns[type(value)](value, self.__handler)
+        for kind, handler in self.__data_handler_fns.items():
+            # includes subclasses, e.g. enumerations of texts
+            if isinstance(value, kind):
+                return handler(value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From 31439cc65d82b6516cbe65e9259d72cfcb736400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 076/101] fix: empty contexts were replaced for the document
 but not for what is nested

---
 jsonld/engine/json_input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index 258b241..2b3700f 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -104,10 +104,11 @@ class PropertyJsonIntake:
         """
         # convert to dict and expand
         data = json.loads(data) if isinstance(data, str) else data.copy()
-        context = data.get('@context', DEFAULT_CONTEXT)
         if not data.get('@context', None):
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
+        # after the default, so that it applies to nested objects, too
+        context = data['@context']
         object_class = self._get_object_class(data)
         if not object_class:
             raise ValueError(f'Provided data has invalid or missing "@type"')
-- 
2.43.0


From e430b13bc5f8728867472d8fbe2c9fb0f3780010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 077/101] fix: JSON that is no object raised an AttributeError
 when loaded

---
 jsonld/engine/json_input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index 2b3700f..0dcf2ae 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -103,7 +103,10 @@ class PropertyJsonIntake:
         :return: Python object
         """
         # convert to dict and expand
-        data = json.loads(data) if isinstance(data, str) else data.copy()
+        data = json.loads(data) if isinstance(data, str) else data
+        if not isinstance(data, dict):
+            raise ValueError(f'Provided data is not an object: "{data}"')
+        data = data.copy()
         if not data.get('@context', None):
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
-- 
2.43.0


From bdafafefedde9005184fcb391edcc77b3775db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 078/101] fix: lists of dates of closed were not read, dates
 that do not exist accepted in them

---
 activitystreams/properties.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 8366526..38c19d2 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -621,8 +621,14 @@ class Closed(ActivityStreamsProperty):
     @SetterValidator(types=(Object, Link, datetime, bool, str),
                      additional=(is_activity_datetime,)).check
     def closed(self, val):
-        self.___closed___ = parse_activitystream_datetime(val) \
-            if isinstance(val, str) else val
+        def parse(one):
+            # several values are several dates
+            if isinstance(one, list):
+                return [parse(item) for item in one]
+            return parse_activitystream_datetime(one) \
+                if isinstance(one, str) else one
+
+        self.___closed___ = parse(val)
 
 
 class Origin(ActivityStreamsProperty):
-- 
2.43.0


From f6baec37882d27e193ee221f4cd1099178c477f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 079/101] fix: an object updated and deleted at the same time
 was not a conflict

An update of an object that only a secondary group holds only adds to the
primary group, deleting it only removes it from the secondary group, so both
transactions were committed and the deleted object was still there.
---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 35d3d00..b27ba30 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -409,6 +409,10 @@ class Container(Persistent, ContainerProperties):
         self.__require_current()
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
+        if any(group.has_key(id) for group in self.groups[1:]):
+            # a transaction that deletes the object meanwhile would only look
+            # in the secondary groups
+            self._p_changed = True
         return res
 
     def delete(self, id) -> Tuple:
-- 
2.43.0


From 42d2e9e41f60c42ed087cecc88e64dd3192ed2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:14 +0000
Subject: [PATCH 080/101] fix: connections with their default transaction
 manager could not write

The thread manager lacked what the autocommit decorator asks it for.
---
 citrine/persistence.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index d082632..34bae6b 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -60,6 +60,22 @@ class CitrineThreadTransactionManager(ThreadTransactionManager):
         super().__init__()
         self.manager = CitrineTransactionManager()
 
+    @property
+    def autocommit(self):
+        return self.manager.autocommit
+
+    @autocommit.setter
+    def autocommit(self, value):
+        self.manager.autocommit = value
+
+    @property
+    def logger(self):
+        return self.manager.logger
+
+    @property
+    def transaction_uuid(self):
+        return getattr(self.manager, 'transaction_uuid', None)
+
 
 def autocommit(fn):
     """
-- 
2.43.0


From 7ae87febb713d176374d857b857ef1bc6d1ce878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 081/101] fix: classes of a package lost what parents outside
 of the package override

---
 jsonld/kamino.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0cb5fa0..dbee545 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -89,7 +89,10 @@ class ClassCloner:
             # IF there is a cloned class for a dependency (root will not have!)
             # THEN have the dependent cloned class inherit from it
             cls = node.cls
-            inherits = [class_ref.get(p) for p in node.parents.keys()] + [cls]
+            # the class itself comes first: its parents may include classes
+            # outside of the package, which have to stay before their own
+            # (cloned) parents
+            inherits = [cls] + [class_ref.get(p) for p in node.parents.keys()]
             inherits = tuple(filter(lambda n: n is not None, inherits))
 
             class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
-- 
2.43.0


From b8d821bc445011dab0b8a80d697d3864d76eee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:14 +0000
Subject: [PATCH 082/101] fix: an address that is no text raised an
 AttributeError for a link

---
 activitystreams/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0ca173a..4ddbab8 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -236,9 +236,11 @@ class Link(ApplicationActivityJson):
             if (isinstance(v, str) and
                     (validate_url(v) or validate_acct_or_email(v))):
                 return link_cls(href=v)
-            if isinstance(v, dict) and v.get('href', None) and validate_url(
-                    v.get('href', '')):
-                return link_cls(**v)
+            if isinstance(v, dict) and isinstance(v.get('href'), str) and \
+                    validate_url(v['href']):
+                # only names are properties, "self" is none of them
+                return link_cls(**{key: val for key, val in v.items()
+                                   if isinstance(key, str) and key != 'self'})
             # if it's an iterable other than a string or dict, create many links
             if isinstance(v, (list, tuple, set)):
                 return [create_link(item, link_cls) for item in v]
-- 
2.43.0


From 0c908c80eab9f1b88d59317844655115fc041992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 083/101] fix: a property class derived from another one was
 taken for its parent

---
 jsonld/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 34ea53e..8906192 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -258,7 +258,8 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        # that of a parent is not its own
+        if '__property_name__' not in cls.__dict__ or refresh:
             prop = [key for key, value in cls.__dict__.items()
                     if isinstance(value, property)]
             # the registration process only supports ONE property per class;
@@ -278,10 +279,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        if '__property_name__' not in cls.__dict__ or refresh:
             cls.__property_name__ = cls.__get_property_name__(refresh=True)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
+        if '__registration__' not in cls.__dict__ or refresh:
             prop = getattr(cls, cls.__property_name__, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
-- 
2.43.0


From e4c6599b788cd3133107128624073132078b9995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:58 +0000
Subject: [PATCH 084/101] fix: links without address were lost when they were
 written

---
 activitystreams/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 4ddbab8..fbfd48b 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -204,11 +204,12 @@ class Link(ApplicationActivityJson):
         def decorator(obj):
             val = get_func(obj)
             # if it's a single link, return the href
-            if isinstance(val, Link):
+            if isinstance(val, Link) and val.href is not None:
                 return val.href
             # if it's a list, return either the href or the item (if no href)
             if isinstance(val, list):
-                return [item.href if isinstance(item, Link) else item
+                return [item.href if isinstance(item, Link)
+                        and item.href is not None else item
                         for item in val]
             # if we don't have a handler, just give back what we found
             return val
-- 
2.43.0


From 57f240f93d871ce5af9a2256367d00f8774e3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:30 +0000
Subject: [PATCH 085/101] fix: static methods and classes as attributes were
 broken in classes of a package

---
 jsonld/kamino.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index dbee545..3a9745f 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -142,7 +142,11 @@ class ClassCloner:
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
         for name, method in cls.__dict__.items():
-            if callable(method):
+            if isinstance(method, staticmethod):
+                # gets no object and must not start to
+                setattr(cls, name, staticmethod(wrapper(method.__func__)))
+            elif callable(method) and hasattr(method, '__get__'):
+                # others are no methods, e.g. a class as an attribute
                 setattr(cls, name, wrapper(method))
 
     def wrap_properties(self, cls):
-- 
2.43.0


From f9046ae03749b071ea1a9078554c65b9b17aada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:35 +0000
Subject: [PATCH 086/101] fix: objects with a read-only property could not be
 taken over by a package

---
 jsonld/kamino.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 3a9745f..9a10179 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -190,7 +190,7 @@ class ClassCloner:
             if not isinstance(prop, property):
                 # failsafe in case something unexpected comes in!
                 continue
-            wrapped = property(fget=get_wrapper(prop.fget),
-                               fset=set_wrapper(prop.fset),
+            wrapped = property(fget=prop.fget and get_wrapper(prop.fget),
+                               fset=prop.fset and set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
-- 
2.43.0


From 52ab76b9d4e4e797b8b80d36c6107d78e8afc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 087/101] fix: resizing lost what other connections changed
 meanwhile

A group that was empty or only copied when its container was resized was not
checked at the commit, so what others had stored in it since was lost, and
objects could be moved into a group that somebody else's resizing had replaced.
---
 citrine/storage/collection.py | 18 ++++++++++++++++++
 citrine/storage/container.py  | 29 ++++++++++++++++++++---------
 citrine/storage/group.py      |  8 ++++++++
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index e996898..93b9065 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -232,6 +232,24 @@ class Collection(Persistent):
         """
         return self.tree.clear()
 
+    def require_current(self):
+        """
+        Makes the current transaction fail if another one changes what the
+        collection holds before it is committed
+        """
+        def require(part):
+            # only what was loaded from a database is known to have changed
+            if part._p_jar is not None:
+                part._p_activate()
+                part._p_jar.readCurrent(part)
+
+        require(self.meta)
+        require(self.tree)
+        bucket = self.tree._firstbucket
+        while bucket is not None:
+            require(bucket)
+            bucket = bucket._next
+
     def keys(self):
         """
         Return a view of all keys in the collection
diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index b27ba30..601b5cc 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -338,10 +338,7 @@ class Container(Persistent, ContainerProperties):
         :return: groups removed from the container
         """
         if transfer:
-            # only take an object out once the primary holds it, the insert may
-            # be refused
-            fn = lambda group, key: (self.primary.insert(key, group.get(key)),
-                                     group.pop(key))
+            fn = lambda group, key: self.__move(group, key)
         else:
             fn = lambda group, key: self.__copy(group, key)
 
@@ -355,21 +352,35 @@ class Container(Persistent, ContainerProperties):
                             tm.commit()
         else:
             for group in source_groups:
+                group.require_current()
                 for key in list(group.keys()):
                     fn(group, key)
 
         if transfer:
-            remaining = tuple(group for group in self.groups
-                              if group not in source_groups)
+            remaining = lambda: tuple(group for group in self.groups
+                                      if group not in source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = remaining
+                    # groups may have been added meanwhile
+                    self.___groups___ = remaining()
                     tm.commit()
             else:
-                self.___groups___ = remaining
+                self.___groups___ = remaining()
             return list(source_groups)
         return []
 
+    def __move(self, group: Group, key):
+        """
+        Moves an object of a secondary group into the primary group
+        """
+        # somebody else may make another group the primary one meanwhile, which
+        # comes before all of those that hold the object
+        self.__require_current()
+        # only take the object out once the primary holds it, the insert may be
+        # refused
+        self.primary.insert(key, self.read(key))
+        group.pop(key)
+
     def __copy(self, group: Group, key):
         """
         Copies an object of a secondary group into the primary group
@@ -377,7 +388,7 @@ class Container(Persistent, ContainerProperties):
         # the copy does not change the source, so it has to be made to conflict
         # with a transaction that deletes the object meanwhile
         self._p_changed = True
-        return self.primary.insert(key, group.get(key))
+        return self.primary.insert(key, self.read(key))
 
     def has(self, id) -> int:
         """
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index e6fb228..44d0107 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -380,6 +380,14 @@ class Group(Persistent):
         """
         return [collection.clear() for collection in self.collections]
 
+    def require_current(self):
+        """
+        Makes the current transaction fail if another one changes what the
+        group holds before it is committed
+        """
+        for collection in self.collections:
+            collection.require_current()
+
     def keys(self):
         """
         Return a view of all keys in the collection
-- 
2.43.0


From eeccda20b23ec0aef13fd45981845dde17ee17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 088/101] fix: what was stored in a legacy container while it
 was expanded was lost

---
 citrine/persistence.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 34bae6b..d502c19 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -143,6 +143,7 @@ class DbContainer(Persistent):
         })
         # the location of an object depends on the number of containers
         for container in previous.values():
+            self.__require_current(container)
             for id, obj in container.items():
                 self.write(id, obj)
 
@@ -170,6 +171,7 @@ class DbContainer(Persistent):
         :param id:
         :return:
         """
+        self.__require_current(self)
         self.__locate_container(id)[id] = obj
 
     def delete(self, id):
@@ -178,8 +180,20 @@ class DbContainer(Persistent):
         :param id:
         :return:
         """
+        self.__require_current(self)
         self.__locate_container(id).pop(id)
 
+    @staticmethod
+    def __require_current(obj):
+        """
+        Makes the current transaction fail if another one changes the object
+        meanwhile; otherwise what is stored while the containers are replaced
+        would be lost
+        """
+        if getattr(obj, '_p_jar', None) is not None:
+            obj._p_activate()
+            obj._p_jar.readCurrent(obj)
+
     def __locate_container(self, id: str):
         """
         Locate the appropriate container based on the provided id value
-- 
2.43.0


From bfd3955b06086f643d8ca050646a88fe3df194cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:18 +0000
Subject: [PATCH 089/101] fix: expanding or setting up in a block of a legacy
 connection dropped the block's changes

---
 citrine/connection/connection.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..bd5df89 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -3,6 +3,7 @@ Common classes and utilities used by the Citrine database
 """
 import logging
 import uuid
+from contextlib import nullcontext
 from uuid import uuid4
 from datetime import datetime
 
@@ -57,7 +58,7 @@ class CitrineConnection(Connection):
         :param num: number of containers to expand by
         :return:
         """
-        with self:
+        with self._block():
             self.container.expand_size(self.num_containers() + num)
 
     @autocommit
@@ -116,6 +117,16 @@ class CitrineConnection(Connection):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.transaction_manager.__exit__(exc_type, exc_val, exc_tb)
 
+    def _block(self):
+        """
+        Context for an action of its own, which becomes part of the current
+        transaction block, if any; beginning another transaction would drop
+        what was done in the block so far
+        """
+        if getattr(self.transaction_manager, 'autocommit', True):
+            return self
+        return nullcontext()
+
     def setup(self):
         """
         Performs checks that objects necessary for the CitrineConnection to
@@ -125,13 +136,13 @@ class CitrineConnection(Connection):
         if not hasattr(self.root, 'container'):
             logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
                             'CREATING NEW')
-            with self:
+            with self._block():
                 self.root.container = DbContainer()
 
         if not hasattr(self.root, 'meta'):
             logging.warning('MISSING METADATA OBJECT "root.meta", ' +
                             'CREATING NEW')
-            with self:
+            with self._block():
                 self.root.meta = DbMetadata()
 
 # PLACEHOLDER! This will be the new name after the refactor in citrine.storage is done
@@ -155,11 +166,11 @@ class ManagedConnection(CitrineConnection):
         if not hasattr(self.root, 'container'):
             logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
                             'CREATING NEW')
-            with self:
+            with self._block():
                 self.root.container = Container()
 
         if not hasattr(self.root, 'meta'):
             logging.warning('MISSING METADATA OBJECT "root.meta", ' +
                             'CREATING NEW')
-            with self:
+            with self._block():
                 self.root.meta = Metadata()
\ No newline at end of file
-- 
2.43.0


From 1b7439db0d76dd8934a11ee3cf8bb7921261b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 090/101] fix: automatic transactions of a legacy connection
 could not be switched off

---
 citrine/connection/connection.py | 7 ++++---
 citrine/persistence.py           | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index bd5df89..4a70f3c 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -120,10 +120,11 @@ class CitrineConnection(Connection):
     def _block(self):
         """
         Context for an action of its own, which becomes part of the current
-        transaction block, if any; beginning another transaction would drop
-        what was done in the block so far
+        transaction block (or transaction, if there are no automatic ones);
+        beginning another transaction would drop what was done in it so far
         """
-        if getattr(self.transaction_manager, 'autocommit', True):
+        if self.auto_transaction and \
+                getattr(self.transaction_manager, 'autocommit', True):
             return self
         return nullcontext()
 
diff --git a/citrine/persistence.py b/citrine/persistence.py
index d502c19..01807c3 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -88,7 +88,8 @@ def autocommit(fn):
 
     def decorator(connection, id, *args, **kwargs):
         tm = connection.transaction_manager
-        if not tm.autocommit:
+        if not (tm.autocommit
+                and getattr(connection, 'auto_transaction', True)):
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
             return fn(connection, id, *args, **kwargs)
-- 
2.43.0


From f21bad725c068981bbd285cee9160c841397b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:54 +0000
Subject: [PATCH 091/101] fix: making a database ended the transaction in
 progress in the thread

---
 citrine/database/containerdb.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index fe57637..869a48b 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -9,7 +9,8 @@ from ZODB.POSException import POSKeyError
 from citrine.connection.container_connection import ContainerConnection
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
 from citrine.storage.container import Container
-from citrine.storage.transaction import ThreadTransactionManager
+from citrine.storage.transaction import (ThreadTransactionManager,
+                                         TransactionManager)
 
 
 class ContainerDb(DB):
@@ -133,7 +134,9 @@ class ContainerDb(DB):
                 # ``ContainerConnection`` can be opened
                 if databases is not None:
                     databases.pop(database_name, None)
-                conn = DB(storage).open()
+                # in a transaction of its own, whatever transaction of the thread
+                # is in progress must go on
+                conn = DB(storage).open(TransactionManager())
                 with conn.transaction_manager as tm:
                     # if this exists, do nothing, the exception is unrelated to
                     # the database being new!!
@@ -197,7 +200,7 @@ class ContainerDb(DB):
                               pack_keep_old=pack_keep_old, packer=packer,
                               blob_dir=blob_dir)
         # store the container in the database
-        conn = DB(storage).open()
+        conn = DB(storage).open(TransactionManager())
         with conn.transaction_manager as tm:
             # an existing file that is not created anew keeps its contents
             if not getattr(conn.root, 'container', None):
-- 
2.43.0


From f5abd5573a9786e661595949475a6d5cafb447c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:31 +0000
Subject: [PATCH 092/101] fix: a database being created was found without its
 container

Clients that connected meanwhile were refused, and a crash left a file that could not be opened
---
 citrine/database/containerdb.py | 49 ++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 869a48b..85c1999 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,4 @@
+from contextlib import contextmanager
 from threading import local
 
 import ZODB
@@ -9,8 +10,31 @@ from ZODB.POSException import POSKeyError
 from citrine.connection.container_connection import ContainerConnection
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
 from citrine.storage.container import Container
-from citrine.storage.transaction import (ThreadTransactionManager,
-                                         TransactionManager)
+from citrine.storage.transaction import ThreadTransactionManager
+
+
+class NewDb(DB):
+    """
+    Database that gets its container in the transaction that creates its root;
+    another client, or whoever opens the file after a crash, must not find one
+    without the other
+
+    :param storage: storage of the database
+
+    :param container: Container for a database that does not have one yet
+    """
+
+    def __init__(self, storage, container):
+        self.__container = container
+        super().__init__(storage)
+
+    @contextmanager
+    def transaction(self, note=None):
+        with super().transaction(note) as conn:
+            yield conn
+            # an existing file that is not created anew keeps its contents
+            if not getattr(conn.root, 'container', None):
+                conn.root.container = self.__container
 
 
 class ContainerDb(DB):
@@ -134,16 +158,9 @@ class ContainerDb(DB):
                 # ``ContainerConnection`` can be opened
                 if databases is not None:
                     databases.pop(database_name, None)
-                # in a transaction of its own, whatever transaction of the thread
-                # is in progress must go on
-                conn = DB(storage).open(TransactionManager())
-                with conn.transaction_manager as tm:
-                    # if this exists, do nothing, the exception is unrelated to
-                    # the database being new!!
-                    if not getattr(conn.root, 'container', None):
-                        conn.root.container = Container.new(strict=strict)
-                        tm.commit()
-                conn.close()
+                # if there is a container this does nothing, the exception is
+                # unrelated to the database being new!!
+                NewDb(storage, Container.new(strict=strict))
                 super().__init__(storage=storage, **settings)
         except Exception:
             # an unusable database must not be found by the others
@@ -200,13 +217,7 @@ class ContainerDb(DB):
                               pack_keep_old=pack_keep_old, packer=packer,
                               blob_dir=blob_dir)
         # store the container in the database
-        conn = DB(storage).open(TransactionManager())
-        with conn.transaction_manager as tm:
-            # an existing file that is not created anew keeps its contents
-            if not getattr(conn.root, 'container', None):
-                conn.root.container = container
-                tm.commit()
-        conn.close()
+        NewDb(storage, container)
         return storage
 
     @classmethod
-- 
2.43.0


From cff379a4b078014d571370aad4edcf34390a53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 093/101] fix: databases that could not be opened kept their
 file, or their connection to the server

---
 citrine/client/container_client.py | 24 +++++++++------
 citrine/database/containerdb.py    | 47 ++++++++++++++++++------------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 424597f..92a53de 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -180,15 +180,21 @@ class ContainerClient(ContainerDb):
             _client_factory=_client_factory)
 
         # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout, database_name=database_name,
-            databases=databases, xrefs=xrefs,
-            large_record_size=large_record_size, strict=strict)
+        storage = client
+        try:
+            client = cls.load(storage, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout, database_name=database_name,
+                databases=databases, xrefs=xrefs,
+                large_record_size=large_record_size, strict=strict)
+        except Exception:
+            # nobody else is able to disconnect it from the server
+            storage.close()
+            raise
 
         # If not connection.container and create==True, create a new Container
         with client as connection:
diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 85c1999..cc174c1 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -217,7 +217,12 @@ class ContainerDb(DB):
                               pack_keep_old=pack_keep_old, packer=packer,
                               blob_dir=blob_dir)
         # store the container in the database
-        NewDb(storage, container)
+        try:
+            NewDb(storage, container)
+        except Exception:
+            # nobody else is able to close it and release the file
+            storage.close()
+            raise
         return storage
 
     @classmethod
@@ -390,23 +395,29 @@ class ContainerDb(DB):
 
         :return: newly created ``ContainerDb`` object
         """
-        return cls.load(cls.create(file_name, capacity=capacity,
-                                   create=create, read_only=read_only,
-                                   stop=stop, quota=quota, pack_gc=pack_gc,
-                                   pack_keep_old=pack_keep_old, packer=packer,
-                                   blob_dir=blob_dir,
-                                   strict=strict,
-                                   ),
-                        pool_size=pool_size, pool_timeout=pool_timeout,
-                        cache_size=cache_size,
-                        cache_size_bytes=cache_size_bytes,
-                        historical_timeout=historical_timeout,
-                        historical_pool_size=historical_pool_size,
-                        historical_cache_size=historical_cache_size,
-                        historical_cache_size_bytes=historical_cache_size_bytes,
-                        database_name=database_name,
-                        databases=databases, xrefs=xrefs,
-                        large_record_size=large_record_size)
+        storage = cls.create(file_name, capacity=capacity,
+                             create=create, read_only=read_only,
+                             stop=stop, quota=quota, pack_gc=pack_gc,
+                             pack_keep_old=pack_keep_old, packer=packer,
+                             blob_dir=blob_dir,
+                             strict=strict,
+                             )
+        try:
+            return cls.load(storage,
+                            pool_size=pool_size, pool_timeout=pool_timeout,
+                            cache_size=cache_size,
+                            cache_size_bytes=cache_size_bytes,
+                            historical_timeout=historical_timeout,
+                            historical_pool_size=historical_pool_size,
+                            historical_cache_size=historical_cache_size,
+                            historical_cache_size_bytes=historical_cache_size_bytes,
+                            database_name=database_name,
+                            databases=databases, xrefs=xrefs,
+                            large_record_size=large_record_size)
+        except Exception:
+            # nobody else is able to close it and release the file
+            storage.close()
+            raise
 
     def __enter__(self):
         """
-- 
2.43.0


From 24f205febceb2d6fc09634d0546e1bc1704c0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 094/101] fix: a group with a module that cannot be opened kept
 the other modules open

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index 6ec2d62..f1c72c2 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -91,7 +91,15 @@ class DbGroup:
         into the pool that is not yet added
         """
         module_paths = find_dbmodules(root)
-        db_modules = [DbModule(path) for path in module_paths]
+        db_modules = []
+        try:
+            for path in module_paths:
+                db_modules.append(DbModule(path))
+        except BaseException:
+            # one that cannot be opened must not keep the others locked
+            for module in db_modules:
+                module.db.close()
+            raise
         return {module.name: module for module in db_modules}
 
 
-- 
2.43.0


From 77ec21acfe0069ae074b5e17269a6c42f148b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:47 +0000
Subject: [PATCH 095/101] fix: operations were not committed any more after a
 transaction that could not begin

---
 citrine/persistence.py         | 4 +++-
 citrine/storage/transaction.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 01807c3..a15179b 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -34,8 +34,10 @@ class CitrineTransactionManager(TransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        # a transaction that cannot begin does not get to its end either
+        transaction = super().__enter__()
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index f416568..c25c936 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -24,8 +24,10 @@ class TransactionManager(ZoTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        # a transaction that cannot begin does not get to its end either
+        transaction = super().__enter__()
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
@@ -55,8 +57,10 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        # a transaction that cannot begin does not get to its end either
+        transaction = super().__enter__()
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From f36a0bc6c77220fe919b0376689f9183793862dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:24 +0000
Subject: [PATCH 096/101] fix: what was stored in legacy containers made of
 plain dicts got lost

---
 citrine/cluster_tools/clusterdb/container.py | 3 +++
 citrine/persistence.py                       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..e69c6fb 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -41,6 +41,9 @@ class ClusterRegistryContainer(Persistent):
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
         self.modules = modules if modules else PersistentMapping()
+        # changes of a plain dict would not be stored
+        if isinstance(self.modules, dict):
+            self.modules = PersistentMapping(self.modules)
 
     def has(self, id) -> bool:
         """
diff --git a/citrine/persistence.py b/citrine/persistence.py
index a15179b..cd41880 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -134,6 +134,12 @@ class DbContainer(Persistent):
         # Containers will be stored as a PM of PMs
         self.containers = containers if containers is not None else \
             PersistentMapping({0: PersistentMapping()})
+        # changes of plain dicts would not be stored
+        if isinstance(self.containers, dict):
+            self.containers = PersistentMapping(self.containers)
+        for key, container in self.containers.items():
+            if isinstance(container, dict):
+                self.containers[key] = PersistentMapping(container)
 
     def expand_size(self, new_size: int):
         if new_size <= self.containers_size:
-- 
2.43.0


From bd6eb651c5167af9dfc8dab4a74dca9ce7f03366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:52 +0000
Subject: [PATCH 097/101] fix: transactions whose commit failed had no end in
 the log, ones that could not begin took over the id of the current one

---
 citrine/persistence.py         |  6 ++++--
 citrine/storage/transaction.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index cd41880..1c285b6 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -32,10 +32,9 @@ class CitrineTransactionManager(TransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
-        # a transaction that cannot begin does not get to its end either
-        transaction = super().__enter__()
         self.autocommit = False
         return transaction
 
@@ -47,6 +46,9 @@ class CitrineTransactionManager(TransactionManager):
             else:
                 self.abort()
                 self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+            raise
         finally:
             self.autocommit = True
             self.transaction_uuid = None
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index c25c936..f4d7611 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -22,10 +22,9 @@ class TransactionManager(ZoTransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
-        # a transaction that cannot begin does not get to its end either
-        transaction = super().__enter__()
         self.autocommit = False
         return transaction
 
@@ -37,6 +36,9 @@ class TransactionManager(ZoTransactionManager):
             else:
                 self.abort()
                 self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+            raise
         finally:
             self.autocommit = True
             self.transaction_uuid = None
@@ -55,10 +57,9 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         self.logger.setLevel(logging.INFO)
 
     def __enter__(self):
+        transaction = super().__enter__()
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
-        # a transaction that cannot begin does not get to its end either
-        transaction = super().__enter__()
         self.autocommit = False
         return transaction
 
@@ -70,6 +71,9 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
             else:
                 self.abort()
                 self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+            raise
         finally:
             self.autocommit = True
             self.transaction_uuid = None
-- 
2.43.0


From e2c3bb99625b90a6d5f9272fe110de37054ede9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:37 +0000
Subject: [PATCH 098/101] fix: properties linked to or removed from classes of
 a package later were not noticed

---
 jsonld/package.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonld/package.py b/jsonld/package.py
index 0ba6370..3a71949 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -109,6 +109,7 @@ class JsonLdPackage(ClassCloner):
         """
         setattr(object_class, property_class.__get_property_name__(),
                 property(*property_class.__get_registration__()))
+        self.__refresh(object_class)
 
     def link_properties(self, property_namespaces: Iterable[str],
                         object_namespace: str):
@@ -127,10 +128,20 @@ class JsonLdPackage(ClassCloner):
                              object_class: PropertyAwareObject):
         setattr(object_class, property_class.__get_property_name__(),
                 property(*property_class.__get_registration__()))
+        self.__refresh(object_class)
 
     def remove_property_link(self, property_name: str,
                              object_class: PropertyAwareObject):
         delattr(object_class, property_name)
+        self.__refresh(object_class)
+
+    def __refresh(self, object_class: PropertyAwareObject):
+        """
+        Lists the properties of the class and those inheriting from it anew
+        """
+        object_class.__get_properties__(refresh=True)
+        for child in object_class.__subclasses__():
+            self.__refresh(child)
 
     def __getitem__(self, keys):
         if isinstance(keys, str):
-- 
2.43.0


From b2f1d9d4562398b629e2bc018363507dfc36cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:49 +0000
Subject: [PATCH 099/101] fix: looking at and opening database modules left
 compiled files in their directories

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 0ac8ec3..f9b29e0 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -75,7 +75,7 @@ def is_path_dbmodule(path):
         init_path = join(path, '__init__.py')
         spec = spec_from_file_location('DB_MODULE', init_path)
         module = module_from_spec(spec)
-        spec.loader.exec_module(module)
+        run_init(module)
         return module.DB_MODULE
     except Exception:
         # there are many things that can raise an exception, so let's just
@@ -92,6 +92,12 @@ def find_dbmodules(path: str):
     return (mod for mod in potential_dbmodules if is_path_dbmodule(mod))
 
 
+def run_init(module):
+    # not exec_module, which leaves its compiled files in the directory
+    loader, path = module.__loader__, module.__file__
+    exec(loader.source_to_code(loader.get_data(path), path), module.__dict__)
+
+
 def import_db(path):
     """
     Imports the module database from a DbModule directory and returns it
@@ -105,7 +111,7 @@ def import_db(path):
         raise FileNotFoundError(init_path)
     spec = spec_from_file_location('db', init_path)
     module = module_from_spec(spec)
-    spec.loader.exec_module(module)
+    run_init(module)
     return module.db()
 
 
-- 
2.43.0


From 4bbc0c10f92f66b71c726cc6e0fdff55fd676bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:43 +0000
Subject: [PATCH 100/101] fix: databases of a group stayed open if another one
 of it could not be opened

---
 citrine/connection/group_connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 1d3e2a7..9d63ee6 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -31,7 +31,13 @@ class GroupReadConnection:
                 **default,
                 **connection_args.get(db.database_name, {})
             }
-            self.connections += (db.open(**connection_details),)
+            try:
+                self.connections += (db.open(**connection_details),)
+            except BaseException:
+                # nobody else is able to close the others
+                for connection in self.connections:
+                    connection.close()
+                raise
 
     def read(self, id: str, timeout: timedelta = None, multiple: bool = False):
         """
-- 
2.43.0


From a260e2d8ca18050568425ad181d3b9fbc5eabf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:53 +0000
Subject: [PATCH 101/101] fix: using a class for the first time failed in a
 thread if another one did so too

---
 jsonld/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 8906192..15925f1 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -260,7 +260,7 @@ class JsonProperty(NamespacedObject):
         """
         # that of a parent is not its own
         if '__property_name__' not in cls.__dict__ or refresh:
-            prop = [key for key, value in cls.__dict__.items()
+            prop = [key for key, value in cls.__dict__.copy().items()
                     if isinstance(value, property)]
             # the registration process only supports ONE property per class;
             # this is intentional
@@ -327,7 +327,7 @@ class PropertyAwareObject(NamespacedObject):
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-                                             kls.__dict__.items()
+                                             kls.__dict__.copy().items()
                                              if isinstance(value, property))))
         return cls.__properties__
 
-- 
2.43.0

