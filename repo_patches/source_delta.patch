From bebafbb2debee554fd70d07370dca7236fde5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/62] fix: SqliteStorage must not hand out the highest used
 oid again after a reopen

max(id) is already in use, so the first object created after reopening an
existing database overwrote a stored object.  An existing but empty database
could not allocate at all (max(id) is NULL).
---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..32b5073 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -59,7 +59,7 @@ class SqliteStorage(Storage):
             self._init()
         else:
             self._conn = sqlite3.connect(filename)
-            self._last_oid = self._get_last_oid()
+            self._last_oid = self._get_last_oid() + 1
         self._conn.text_factory = bytes
         #self._conn.executescript(_PRAGMAS)
         self.pending_records = []
@@ -84,13 +84,14 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return the highest OID in the database as integer, or -1 if there are
+        no objects.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
-            return 0
+        if v is None or v[0] is None:
+            return -1
         return v[0]
 
     def load(self, oid):
-- 
2.43.0


From bc22e94021a7cab74b876c088ebbb36dc77ee9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/62] fix: SqliteStorage.gen_oid_record() without a start_oid
 raised instead of iterating

---
 durus/sqlite_storage.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 32b5073..2a42b02 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -147,13 +147,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
-        for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
+        for id, data, refs in c.fetchall():
+            oid = int8_to_str(id)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 0e42695dc3b6bdcc577a314fdeb557ddc34ef5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/62] fix: str() of a DurusKeyError raised AttributeError

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From 6a59331a456d843b58898a79e8f0dd1d33a47aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 04/62] fix: FileStorage2.begin() must discard the records of a
 commit that did not finish

Records stored by a commit that failed before end() were written by the next
successful commit, making an aborted change durable.
---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From 484d6a037765ff8a8f600b70811ee33a3dfb551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 05/62] fix: a commit that fails for any reason must leave new
 objects new

Only a ConflictError reset the objects that were given an oid during the
commit.  After any other failure (an unpicklable value, a reference to another
connection's object, a storage error) they kept an oid with no stored record,
so linking them again and committing stored a dangling reference.
---
 durus/connection.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..16dc085 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -261,24 +261,29 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        # After a failure, some may not be in new_objects yet.
+                        for obj in writer.objects_found:
+                            new_objects.setdefault(obj._p_oid, obj)
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
+            except:
+                # These have not been stored, so they are still new.
                 for oid, obj in iteritems(new_objects):
                     obj._p_oid = None
                     del self.cache[oid]
-- 
2.43.0


From 86c2cda4f3774f067f8959531b46746a4064dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 06/62] fix: BNode.delete() corrupted item counts and, with
 BNode, the tree itself

Moving a child between siblings did not move its count, and replacing an item
when both neighbors are minimal miscounted; len() went wrong and eventually
negative (ValueError).  With a minimum degree of 2 that second case also
deleted from a sibling that could not spare an item, which collapsed it to a
different height.  It now merges and recurs, as in the text being followed.
---
 durus/btree.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..eaddc77 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -238,15 +238,17 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
+                    node._p_note_change()
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
@@ -258,8 +260,10 @@ class BNode(PersistentObject):
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
-                            del lower_sibling.nodes[-1]
+                            moved = lower_sibling.nodes.pop()
+                            node.nodes.insert(0, moved)
+                            node._count += moved._count
+                            lower_sibling._count -= moved._count
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
@@ -269,8 +273,10 @@ class BNode(PersistentObject):
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
-                            del upper_sibling.nodes[0]
+                            moved = upper_sibling.nodes.pop(0)
+                            node.nodes.append(moved)
+                            node._count += moved._count
+                            upper_sibling._count -= moved._count
                         upper_sibling._p_note_change()
                     elif lower_sibling:
                         # Case 3b1: Merge with lower_sibling
-- 
2.43.0


From 7344254969db2a149285e73487cc322c38ae0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/62] fix: deleting a missing key could leave a non-empty
 BTree claiming to be empty

The search for the key merges minimal nodes on the way down.  When that emptied
the root and the key was not there, KeyError left the root without items, so
bool() was False and get_min_item() refused to work.
---
 durus/btree.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index eaddc77..7a0fb82 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -304,12 +304,19 @@ class BNode(PersistentObject):
                     node._p_note_change()
                 assert is_big(node)
                 old_count = node._count
-                node.delete(key)
-                self._count += node._count - old_count
-            if not self.items:
-                # This can happen when self is the root node.
-                self.items = self.nodes[0].items
-                self.nodes = self.nodes[0].nodes
+                try:
+                    node.delete(key)
+                    self._count += node._count - old_count
+                finally:
+                    # The merging above happens even if there is no such key.
+                    self._drop_empty_root()
+            self._drop_empty_root()
+
+    def _drop_empty_root(self):
+        if not self.items and not self.is_leaf():
+            # This can happen when self is the root node.
+            self.items = self.nodes[0].items
+            self.nodes = self.nodes[0].nodes
 
     def get_count(self):
         """() -> int
-- 
2.43.0


From 267b75893e7d526cfc6119a64684bf596ca4d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/62] fix: deleting from a BTree whose nodes have no stored
 counts raised TypeError

Truth testing a BNode calls len(), which does not work for instances stored
before counts were added.
---
 durus/btree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 7a0fb82..e1d4862 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            # Note that len(node) does not work on old instances.
+            return node is not None and len(node.items) >= node.minimum_degree
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,10 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = self.nodes[p - 1] if p > 0 else None
+            upper_sibling = (
+                self.nodes[p + 1] if p < len(self.nodes) - 1 else None
+            )
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -278,7 +281,7 @@ class BNode(PersistentObject):
                             node._count += moved._count
                             upper_sibling._count -= moved._count
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
-- 
2.43.0


From d77a33a5f6649dae51f303255ad1aa443399a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 09/62] fix: set_bnode_minimum_degree() compared degrees by
 identity

Large degrees are not interned, so a tree that already had the requested
degree was rebuilt and reported as changed.
---
 durus/btree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/btree.py b/durus/btree.py
index e1d4862..4cfe747 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -601,7 +601,7 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
         of the given minimum_degree, if there is such a class.
         Return True if a change was made.
         """
-        if self.root.minimum_degree is not degree:
+        if self.root.minimum_degree != degree:
             for bnode_class in BNode.__subclasses__():
                 if bnode_class.minimum_degree == degree:
                     new_tree = BTree(node_constructor=bnode_class)
-- 
2.43.0


From 1c5f76f86449fc98310e31bb41d9253f54df7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 10/62] fix: ClientStorage.bulk_load() left unread responses
 behind an error

The server answers every oid of the request.  After a missing or invalid oid
the remaining answers were taken for the answers to later requests.
---
 durus/client_storage.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..99a21d8 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -12,6 +12,7 @@ from durus.storage_server import STATUS_OKAY, STATUS_KEYERROR, STATUS_INVALID
 from durus.utils import int4_to_str, read, write, join_bytes, write_all
 from durus.utils import read_int4, write_int4, write_int4_str, iteritems
 from durus.utils import as_bytes
+import sys
 
 
 class ClientStorage (Storage):
@@ -125,7 +126,17 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        # Read every response, even after an error, so that the next request
+        # does not get a response that belongs to this one.
+        records = []
+        error = None
+        for oid in oids:
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError):
+                error = error or sys.exc_info()[1]
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From b6fd43b95d4160d3565efc99997335283434f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 11/62] fix: a commit whose client is gone must still
 invalidate the other clients

If the committing client disconnected before the status could be written, the
stored changes were never announced, so other clients kept stale objects and
could overwrite the committed changes.
---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..224cf03 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -416,12 +416,13 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
+            # The commit is done, even if the client can't be told about it.
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From bf6429457e902062e6e97f8a0ff2712a49abb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 12/62] fix: IntSet.add() raised IndexError when growing a
 small set

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..ccd36ef 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(max(n + 1, int(n * 1.2)))
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 859fd98e529826b09513316bad07dcb97a8e72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 13/62] fix: an attribute name that can't be encoded as UTF-8
 crashed the interpreter

---
 durus/_persistent.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..e98d13f 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -170,7 +170,9 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
-	if (load_triggering_name(sname)) {
+	if (sname == NULL) /* e.g. a lone surrogate can't be encoded */
+		PyErr_Clear();
+	if (sname == NULL || load_triggering_name(sname)) {
 		if (!pb_load(self))
 			return NULL;
 		if (!pb_note_access(self))
@@ -189,7 +191,9 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
-	if (load_triggering_name(sname)) {
+	if (sname == NULL) /* e.g. a lone surrogate can't be encoded */
+		PyErr_Clear();
+	if (sname == NULL || load_triggering_name(sname)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
 				return -1;
-- 
2.43.0


From 5b4bd22bcdec5f29d6966133eda9335caa895d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/62] fix: an exception while looking for persistent
 references was hidden by a SystemError

PyObject_IsInstance() can fail, e.g. if __class__ is a property that raises.
---
 durus/_persistent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index e98d13f..250a5c2 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -425,7 +425,11 @@ call_if_persistent(PyObject *x, PyObject *args)
 	if (!PyArg_UnpackTuple(args, "", 2, 2, &f, &arg)) {
 		return NULL;
 	}
-	if (PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type)) {
+	int is_persistent = PyObject_IsInstance(
+		arg, (PyObject *)&PersistentBase_Type);
+	if (is_persistent < 0)
+		return NULL;
+	if (is_persistent) {
 		return PyObject_CallFunction(f, "O", arg);
  	} else {
 		Py_INCREF(Py_None);
-- 
2.43.0


From 3434dee72221b5ec9b55437576b47e456e2fbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 15/62] fix: values of private slots and of __slots__ given as
 a string were not stored

---
 durus/persistent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..3db3ca0 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,15 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                slots = klass.__dict__.get('__slots__', [])
+                if isinstance(slots, str):
+                    slots = [slots]
+                for name in slots:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # The attribute name is mangled.
+                        prefix = klass.__name__.lstrip('_')
+                        if prefix:
+                            name = '_%s%s' % (prefix, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From 34378b829c546eeae6f963762976a025e2169c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 16/62] fix: an I/O error must not leave unwritten data behind
 in the buffer of a File

After a failed flush (e.g. the disk is full) the data stayed in the buffer.  The
truncation that should revert the failed transaction flushes first, so it failed
too, and the transaction was completed by a later operation.
---
 durus/file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..5b0c2e4 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -113,9 +113,14 @@ class File (object):
 
     def write(self, s):
         self.obtain_lock()
-        self.file.write(s)
-        # This flush helps the file knows where it ends.
+        # Write around the buffer.  If there is an error (e.g. the disk is
+        # full), data left in the buffer would be written by a later flush,
+        # even if the caller has truncated the file to get rid of it.
         self.file.flush()
+        data = memoryview(s)
+        while data:
+            data = data[self.file.raw.write(data):]
+        self.file.tell() # Let the buffer know the new position.
 
     def truncate(self):
         self.obtain_lock()
-- 
2.43.0


From d997244e391761b3b0960fafbf8c2456ea913d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 17/62] fix: an interrupted Shelf.store() must leave something
 that is recognized as such

The length of a transaction was written last, over a placeholder of 0.  A crash
before that left an empty transaction followed by records, which were read as
transactions: repair could fail with OSError or OverflowError, or accept them.
It also contradicted the promise that data is only appended (backups, rsync).
---
 durus/shelf.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..74b45af 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -4,7 +4,7 @@ $Id$
 """
 from durus.file import File
 from durus.utils import int8_to_str, str_to_int8, read_int8_str, IntArray
-from durus.utils import iteritems, next, as_bytes
+from durus.utils import iteritems, next, as_bytes, join_bytes
 from durus.utils import read, read_int8, write, write_int8, ShortRead, xrange
 import sys
 
@@ -187,35 +187,41 @@ class Shelf (object):
             self.unused_name_generator = generate_unused_names()
         return next(self.unused_name_generator)
 
-    def store(self, name_value_sequence):
-        """([(str, str)]) -> [(str, int|None, int)]
+    def store(self, name_value_sequence, fsync=False):
+        """([(str, str)], fsync:bool=False) -> [(str, int|None, int)]
         Record all of the items in the sequence.
+        If fsync is true, return after they have reached the disk.
         Return a list of triples, each giving a name, an old position (or None
         if this is a new name), and a new position.
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
         result = []
         index = {}
+        # The transaction is appended with the right length at the start.
+        # With a placeholder there, an interruption would leave something
+        # that looks like an empty transaction, followed by garbage.
+        hunks = []
+        end = start + 8
+        for name, value in name_value_sequence:
+            result.append((name, self.get_position(name), end))
+            index[name] = end
+            hunks.append(int8_to_str(len(name) + len(value)))
+            hunks.append(as_bytes(name))
+            hunks.append(as_bytes(value))
+            end += 8 + len(name) + len(value)
+        hunks.insert(0, int8_to_str(end - start - 8))
         try:
-            for name, value in name_value_sequence:
-                new_position = self.file.tell()
-                old_position = self.get_position(name)
-                index[name] = new_position
-                result.append((name, old_position, new_position))
-                write_int8(self.file, len(name) + len(value))
-                write(self.file, name)
-                write(self.file, value)
+            self.file.seek(start)
+            write(self.file, join_bytes(hunks))
+            if fsync:
+                self.file.flush()
+                self.file.fsync()
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From a64a079075388ff4ebf48fdcc1af1a9ea106c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 18/62] fix: a Shelf must not accept a file that ends in the
 middle of a transaction

Seeking past the end of the file succeeds, so a missing part of the last record
was not noticed, with or without repair.  The same goes for a file that ends
right before the offset map, which was opened as an empty storage.
---
 durus/shelf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index 74b45af..01c824a 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -85,6 +85,8 @@ class Shelf (object):
         self.file = file
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
+        if n > 0 and self.file.tell() + n >= len(self.file):
+            raise ShortRead("The file ends before the offset map.")
         self.file.seek(self.file.tell() + n)
         self.offset_map = OffsetMap(self.file)
         # Initialize the memory index.
@@ -304,10 +306,14 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        if transaction_end > len(file):
+            raise ShortRead
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
             record_length = read_int8(file)
+            if not 8 <= record_length <= transaction_end - position - 8:
+                raise ShortRead
             identifier = read(file, 8)
             transaction_offsets[identifier] = position
             file.seek(position + 8 + record_length)
-- 
2.43.0


From 3af076a44917b131ee8aacdfd2a68eab8aa6a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 19/62] fix: FileStorage must not report a commit as done
 before it is on the disk

FileStorage2 calls fsync() for every commit, FileStorage only did for packs.
---
 durus/file_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..22d7d61 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -78,7 +78,7 @@ class FileStorage (Storage):
             raise ValueError("oid %r is a surprise" % oid)
 
     def end(self, handle_invalidations=None):
-        self.shelf.store(iteritems(self.pending_records))
+        self.shelf.store(iteritems(self.pending_records), fsync=True)
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
-- 
2.43.0


From 16f20d3383989735dbcc90f4eccf3aaa981942dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 20/62] fix: a pack must not leave a moment when there is no
 file with the storage's name

The original file was renamed before the packed file was.  After a crash in
between, opening the storage created a new empty one, and the lock was released
while the files were closed and opened again.
---
 durus/file.py          | 39 ++++++++++++++++++++++++++++++++-------
 durus/file_storage.py  |  7 ++++---
 durus/file_storage2.py |  2 +-
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 5b0c2e4..c4f617a 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -28,12 +28,13 @@ class File (object):
                 if readonly:
                     raise OSError('No "%s" found.' % name)
                 self.file = open(name, 'w+b')
+        self.name = self.file.name
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
 
     def get_name(self):
-        return self.file.name
+        return self.name
 
     def is_temporary(self):
         return isinstance(self.file, _TemporaryFileWrapper)
@@ -70,12 +71,36 @@ class File (object):
             return
         assert not self.is_temporary()
         self.obtain_lock()
-        self.close()
-        if exists(name):
-            os.unlink(name)
-        os.rename(old_name, name)
-        self.file = open(name, 'r+b')
-        self.obtain_lock()
+        if os.name == 'nt':
+            self.close()
+            if exists(name):
+                os.unlink(name)
+            os.rename(old_name, name)
+            self.file = open(name, 'r+b')
+            self.obtain_lock()
+        else:
+            # If there is a file with this name, it is replaced atomically.
+            # The lock stays with the open file.
+            os.rename(old_name, name)
+            self.file.seek(0)
+        self.name = name
+
+    def preserve(self, name):
+        """
+        Make sure that the data of this file is available as `name` when
+        another file is about to get renamed to the current name.
+        Where possible, the current name continues to exist until then.
+        """
+        assert not self.is_temporary()
+        if os.name != 'nt':
+            try:
+                if exists(name):
+                    os.unlink(name)
+                os.link(self.get_name(), name)
+                return
+            except OSError:
+                pass # No hard links here.
+        self.rename(name)
 
     def obtain_lock(self):
         """
diff --git a/durus/file_storage.py b/durus/file_storage.py
index 22d7d61..428dcdf 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -161,11 +161,12 @@ class FileStorage (Storage):
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
             file.flush()
             file.fsync()
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
+            old_file = self.shelf.get_file()
+            if not old_file.is_temporary():
+                old_file.preserve(file_path + '.prepack')
             shelf.get_file().rename(file_path)
             self.shelf = shelf
+            old_file.close()
             self.pack_extra = None
             yield "finished %s" % datetime.now()
         return packer()
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..546a6ed 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -246,7 +246,7 @@ class FileStorage2(Storage):
         if self.fp.is_temporary():
             self.fp.close()
         else:
-            self.fp.rename(prepack_name)
+            self.fp.preserve(prepack_name)
         packed.rename(name)
         self.fp = packed
         for oid in self.index:
-- 
2.43.0


From 3351bcd5795091980d631ba8f1ca2100943fae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 21/62] fix: a pack that failed or was abandoned prevented all
 later packs

pack_extra stayed set, so get_packer() took the pack to be still in progress.
---
 durus/file_storage.py   |  4 ++--
 durus/file_storage2.py  |  4 ++--
 durus/sqlite_storage.py |  4 ++--
 durus/storage.py        | 15 +++++++++++++++
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 428dcdf..c903334 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -9,7 +9,7 @@ from durus.file import File
 from durus.logger import log, is_logging
 from durus.serialize import unpack_record, split_oids
 from durus.shelf import Shelf
-from durus.storage import Storage
+from durus.storage import Storage, gen_pack_steps
 from durus.utils import int8_to_str, str_to_int8, IntSet, iteritems
 import durus.connection
 
@@ -169,7 +169,7 @@ class FileStorage (Storage):
             old_file.close()
             self.pack_extra = None
             yield "finished %s" % datetime.now()
-        return packer()
+        return gen_pack_steps(self, packer())
 
     def pack(self):
         for iteration in self.get_packer():
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 546a6ed..b907dc4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -7,7 +7,7 @@ import heapq
 from durus.file import File
 from durus.logger import log, is_logging
 from durus.serialize import unpack_record, split_oids
-from durus.storage import Storage
+from durus.storage import Storage, gen_pack_steps
 from durus.utils import int8_to_str, str_to_int8, IntSet
 from durus.utils import read, write, read_int8_str, write_int8_str
 from durus.utils import read_int8, write_int8, ShortRead, iteritems
@@ -266,7 +266,7 @@ class FileStorage2(Storage):
             return ()
         else:
             self.pack_extra = []
-            return self._packer()
+            return gen_pack_steps(self, self._packer())
 
     def pack(self):
         for z in self.get_packer():
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 2a42b02..1a0e0a0 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -13,7 +13,7 @@ from datetime import datetime
 import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
-from durus.storage import Storage
+from durus.storage import Storage, gen_pack_steps
 from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
@@ -243,7 +243,7 @@ class SqliteStorage(Storage):
             self._delete(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
-        return packer()
+        return gen_pack_steps(self, packer())
 
     def pack(self):
         for iteration in self.get_packer():
diff --git a/durus/storage.py b/durus/storage.py
index dbfe697..fd47e9f 100644
--- a/durus/storage.py
+++ b/durus/storage.py
@@ -145,6 +145,21 @@ def get_reference_index(storage):
     return result
 
 
+def gen_pack_steps(storage, steps):
+    """(storage:Storage, steps:generator) -> generator
+    Generate the steps of a pack.  If it fails or if it is abandoned, make sure
+    that the storage does not believe that it is still in progress.
+    """
+    pack_extra = storage.pack_extra
+    try:
+        for step in steps:
+            yield step
+    except:
+        if storage.pack_extra is pack_extra:
+            storage.pack_extra = None
+        raise
+
+
 class MemoryStorage (Storage):
     """
     A concrete Storage that keeps everything in memory.
-- 
2.43.0


From 0582c025235dcc27a87bfaafae69bbb0831b461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 22/62] fix: get_packer() must return an iterator even when
 there is nothing to do

StorageServer calls next() on it, which does not work for a tuple or a list.
---
 durus/file_storage2.py  | 2 +-
 durus/sqlite_storage.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index b907dc4..3794062 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -263,7 +263,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(()) # Don't pack.
         else:
             self.pack_extra = []
             return gen_pack_steps(self, self._packer())
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 1a0e0a0..a4bd7d5 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -204,7 +204,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return (x for x in []) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
-- 
2.43.0


From 735f030d7f982f2ac2d7d9b3d9c385aa848304ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 23/62] fix: a failed FileStorage2 commit left a partial
 transaction in the file

---
 durus/file_storage2.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 3794062..bce2cc3 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,11 +148,19 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
-        self.fp.flush()
-        self.fp.fsync()
+        self.fp.seek(0, 2)
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+            self.fp.flush()
+            self.fp.fsync()
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
-- 
2.43.0


From 7b8df1507afbee86e6205c902fe835d654bf6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 24/62] fix: a failed SqliteStorage commit left its changes in
 an open transaction

They were visible to load(), and they were stored by the next commit.
---
 durus/sqlite_storage.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index a4bd7d5..c2fec11 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -114,17 +114,23 @@ class SqliteStorage(Storage):
         self.pending_records.append(record)
 
     def _store_records(self, records):
+        oids = []
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
+                oids.append(oid)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
+        if self.pack_extra is not None:
+            # ensure objects and refs are marked alive and not removed
+            self.pack_extra.extend(oids)
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From 0e058b2c85d9005305cf12d1c6e763e70eb635bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 25/62] fix: SqliteStorage pack could delete an object that had
 just been linked again

After the dead objects were identified, the packer yielded before deleting them,
and a commit at that point was not taken into account.
---
 durus/sqlite_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index c2fec11..174ba5d 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -243,9 +243,9 @@ class SqliteStorage(Storage):
             for oid in self._list_all_oids():
                 if oid not in alive:
                     dead.add(oid)
+            # we can't yield before they are deleted, a commit could include a
+            # new reference to one of them
             self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
             self._delete(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
-- 
2.43.0


From 0a27588fa6505092eb47ed898f62721ee5ce6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 26/62] fix: loading a ghost whose record was packed away
 raises ReadConflictError for all storages

FileStorage2, SqliteStorage and MemoryStorage raise a plain KeyError, as the
Storage interface says, which load_state() did not recognize.
---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 16dc085..04c838f 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -187,7 +186,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From 8ee7c87c77ea9b74dea89ceee3b386765e5c3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 27/62] fix: a bad request from one client must not end the
 service for all of them

Only I/O errors and ClientErrors were handled, but a malformed or unexpected
request can raise others (struct.error, ValueError, AssertionError).
---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 224cf03..8754113 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -282,8 +282,8 @@ class StorageServer (object):
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                        except Exception:
+                            # Whatever it is, keep serving other clients.
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
-- 
2.43.0


From 6c181ab7aaf7a57b69d740d725b6890461e492e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 28/62] fix: a failing incremental pack must not end the
 service

---
 durus/storage_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 8754113..b615b1c 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -303,6 +303,11 @@ class StorageServer (object):
                         log(20, 'gc at %s' % datetime.now())
                         self.packer = None # done packing
                         self.bytes_since_pack = 0 # reset
+                    except Exception:
+                        exc = sys.exc_info()[1]
+                        log(20, 'gc failed: %r', exc)
+                        self.packer = None
+                        self.bytes_since_pack = 0 # reset
         finally:
             self.address.close(sock)
 
-- 
2.43.0


From aede6fd9f005d08ed0f53d8f15e0aa87047b2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 29/62] fix: db_renumber.py made a second copy of a root that
 other objects refer to

References to the old root were pickled with its state as one more object.  The
new root also always was a PersistentDict.
---
 bin/db_renumber.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 16625cf..f49d95a 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -11,9 +11,9 @@ from tempfile import TemporaryFile
 import sys
 
 if sys.version < "3":
-    from cPickle import dump, load
+    from cPickle import Pickler, Unpickler
 else:
-    from pickle import dump, load
+    from pickle import Pickler, Unpickler
 
 def usage():
     print("%s <old-file-storage> <new-file-storage>" % sys.argv[0])
@@ -29,12 +29,19 @@ def main(old_file, new_file):
     connection = Connection(sys.argv[1])
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
-    dump(connection.get_root().__getstate__(), tmpfile, 2)
-    connection = None
+    root = connection.get_root()
+    root_class = root.__class__
+    pickler = Pickler(tmpfile, 2)
+    # References to the old root become references to the new root.
+    pickler.persistent_id = lambda obj: "root" if obj is root else None
+    pickler.dump(root.__getstate__())
+    connection = root = pickler = None
     tmpfile.seek(0)
-    connection2 = Connection(sys.argv[2])
+    connection2 = Connection(sys.argv[2], root_class=root_class)
     print("unpickling")
-    connection2.get_root().__setstate__(load(tmpfile))
+    unpickler = Unpickler(tmpfile)
+    unpickler.persistent_load = lambda pid: connection2.get_root()
+    connection2.get_root().__setstate__(unpickler.load())
     connection2.get_root()._p_note_change()
     print("commit to " + new_file)
     connection2.commit()
-- 
2.43.0


From a95bfb2e9113cb8e795c26c3696573af85014897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 30/62] fix: difference_update() of a PersistentSet with itself
 raised RuntimeError

It iterated over the set that it was changing, and left half of it.
---
 durus/persistent_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 96b7686..df28207 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -158,6 +158,8 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
 
     def difference_update(self, other):
         self._p_note_change()
+        if isinstance(other, PersistentSet):
+            other = other.s # It could be self, don't iterate over that.
         return self.s.difference_update(other)
 
     def intersection(self, *others):
-- 
2.43.0


From e4dee9ba2c91709f311c0a31c2142295d592af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 31/62] fix: a failing commit could stop with an AssertionError
 while undoing new oids

An oid that was removed by a pack is used again for a new object.  If the old
object is still in the cache when a commit fails, the new object has not
necessarily replaced it there.
---
 durus/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/connection.py b/durus/connection.py
index 04c838f..62d6557 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -285,7 +285,8 @@ class Connection (ConnectionBase):
                 # These have not been stored, so they are still new.
                 for oid, obj in iteritems(new_objects):
                     obj._p_oid = None
-                    del self.cache[oid]
+                    if self.cache.get(oid) is obj:
+                        del self.cache[oid]
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
                 raise
-- 
2.43.0


From 282754b3c75fc4cef614433ef1c5c45c8c725896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 32/62] fix: crawling across a commit() or abort() loaded
 outdated records

A crawler reads the records of a batch in advance.  Objects that were changed
in the meantime got their old state, and later updates were lost.
---
 durus/connection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index 62d6557..d82b448 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -160,12 +160,20 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
+        transaction_serial = self.transaction_serial
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
+                if self.transaction_serial != transaction_serial:
+                    # The record was perhaps read in an earlier transaction,
+                    # and it may have changed since then.
+                    try:
+                        data = self.get_stored_pickle(oid)
+                    except KeyError:
+                        continue # Removed by a pack.
                 if obj is None:
                     klass = loads(data)
                     obj = self.cache.get_instance(oid, klass, self)
-- 
2.43.0


From 42d518125b418f6f3f11576dd3ea3a0e806a01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 33/62] fix: a commit to a SqliteStorage could be lost in a
 power failure

SQLite commits by removing the rollback journal.  With the default of
synchronous=FULL the directory is not synced afterwards, so that the journal
could be there again after a power failure, and the transaction be rolled
back, although commit() had returned.
---
 durus/sqlite_storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 174ba5d..f340e06 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -61,6 +61,10 @@ class SqliteStorage(Storage):
             self._conn = sqlite3.connect(filename)
             self._last_oid = self._get_last_oid() + 1
         self._conn.text_factory = bytes
+        # A transaction is committed by removing the rollback journal.  Also
+        # sync the directory then, or else the journal could be there again
+        # after a power failure and a commit would be rolled back.
+        self._conn.execute('PRAGMA synchronous=EXTRA')
         #self._conn.executescript(_PRAGMAS)
         self.pending_records = []
         self.pack_extra = None
-- 
2.43.0


From 800f9cf29df21cacf0c100c4b4ba2dff5074530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 34/62] fix: a Shelf that ends before its offset map was opened
 as an empty one

This is also wrong when the initial transaction is empty: it may be a part of a
copy of a storage with many transactions.
---
 durus/shelf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 01c824a..b5a7ce8 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -85,7 +85,7 @@ class Shelf (object):
         self.file = file
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
-        if n > 0 and self.file.tell() + n >= len(self.file):
+        if self.file.tell() + n >= len(self.file):
             raise ShortRead("The file ends before the offset map.")
         self.file.seek(self.file.tell() + n)
         self.offset_map = OffsetMap(self.file)
-- 
2.43.0


From 89168193c8cc977f28f8d181bcb026d4852096aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 35/62] fix: a storage file that could not be opened stayed
 locked

Opening it again with repair=True in the handler of the exception failed, and
even afterwards until the next garbage collection.
---
 durus/file_storage2.py | 23 ++++++++++++++---------
 durus/shelf.py         | 10 +++++++++-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index bce2cc3..ed65028 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -92,16 +92,21 @@ class FileStorage2(Storage):
         self.pending_records = {}
         self.pack_extra = None
         self.fp.seek(0, 2)
-        if self.fp.tell() != 0:
-            assert self.has_format(self.fp)
-        else:
-            # Write header for new file.
-            self.fp.seek(len(self.MAGIC))
-            self._write_header(self.fp)
-            self._write_index(self.fp, {})
+        try:
+            if self.fp.tell() != 0:
+                assert self.has_format(self.fp)
+            else:
+                # Write header for new file.
+                self.fp.seek(len(self.MAGIC))
+                self._write_header(self.fp)
+                self._write_index(self.fp, {})
 
-        self.index = {}
-        self._build_index(repair)
+            self.index = {}
+            self._build_index(repair)
+        except:
+            # Nobody else can.
+            self.fp.close()
+            raise
         max_oid = -1
         for oid in self.index:
             max_oid = max(max_oid, str_to_int8(oid))
diff --git a/durus/shelf.py b/durus/shelf.py
index b5a7ce8..6365b58 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -81,8 +81,16 @@ class Shelf (object):
         else:
             assert items is None
         # The file is not empty.
-        assert self.has_format(file)
         self.file = file
+        try:
+            self._read_index(repair)
+        except:
+            # Nobody else can.
+            self.file.close()
+            raise
+
+    def _read_index(self, repair):
+        assert self.has_format(self.file)
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
         if self.file.tell() + n >= len(self.file):
-- 
2.43.0


From a1069deaa9fa81b53b552da8423da187bec80a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 36/62] fix: a Shelf that ends in its offset map was opened,
 and the map filled with zeros

---
 durus/shelf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 6365b58..53b6f80 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -93,9 +93,12 @@ class Shelf (object):
         assert self.has_format(self.file)
         self.file.seek(len(self.prefix))
         n = read_int8(self.file) # bytes in first transaction
-        if self.file.tell() + n >= len(self.file):
-            raise ShortRead("The file ends before the offset map.")
-        self.file.seek(self.file.tell() + n)
+        start = self.file.tell() + n
+        self.file.seek(start)
+        n = read_int8(self.file) # bytes in the rest of the offset map
+        if self.file.tell() + n > len(self.file):
+            raise ShortRead("The file ends in the offset map.")
+        self.file.seek(start)
         self.offset_map = OffsetMap(self.file)
         # Initialize the memory index.
         self.memory_index = {}
-- 
2.43.0


From 11e3611cab4b873d2db7b78dea596bba5c73cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 37/62] fix: the C _hasattribute() hid all exceptions, not only
 AttributeError

---
 durus/_persistent.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 250a5c2..523f7a3 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -410,6 +410,8 @@ hasattribute(PyObject *self, PyObject *args)
 	    Py_DECREF(result);
 		result = Py_True;
 	} else {
+		if (!PyErr_ExceptionMatches(PyExc_AttributeError))
+			return NULL;
 		PyErr_Clear();
 		result = Py_False;
 	}
-- 
2.43.0


From 9f21760a1bcf6f4722f31d27f08b71f591476dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 38/62] fix: the C base class read memory that is no Connection
 if _p_connection was deleted or is another object

---
 durus/_persistent.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 523f7a3..1e710c9 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -146,17 +146,41 @@ pb_load(PersistentBaseObject *self)
 		return 1;
 }
 
+static PyTypeObject ConnectionBase_Type;
+
 /* if necessary, call self._p_connection.note_access(self) */
 static int
 pb_note_access(PersistentBaseObject *self)
 {
-	ConnectionBaseObject *connection;
-	connection = (ConnectionBaseObject *)self->p_connection;
-	if (self->p_connection != Py_None &&
-	    self->p_serial != connection->transaction_serial) {
+	PyObject *connection, *serial;
+	int different;
+	connection = self->p_connection;
+	if (connection == Py_None)
+		return 1;
+	if (connection == NULL) { /* deleted */
+		PyErr_SetString(PyExc_AttributeError, "_p_connection");
+		return 0;
+	}
+	if (PyObject_TypeCheck(connection, &ConnectionBase_Type))
+		different = (self->p_serial !=
+			((ConnectionBaseObject *)connection)->transaction_serial);
+	else {
+		/* Not a Connection, but perhaps something like it. */
+		if (Py_EnterRecursiveCall(" while noting an access"))
+			return 0; /* It is this object itself. */
+		Py_INCREF(connection);
+		serial = PyObject_GetAttrString(connection, "transaction_serial");
+		Py_DECREF(connection);
+		Py_LeaveRecursiveCall();
+		if (serial == NULL)
+			return 0;
+		different = (self->p_serial != serial);
+		Py_DECREF(serial);
+	}
+	if (different && self->p_connection != NULL)
 		return call_method(
-			(PyObject *)connection, "note_access", (PyObject *)self);
-	} else 
+			self->p_connection, "note_access", (PyObject *)self);
+	else
 		return 1;
 }
 
-- 
2.43.0


From 0f1853f383231b1e1a36c975005ec81b107ee62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 39/62] fix: the C base class took attribute names with null
 characters or lone surrogates for other names

---
 durus/_persistent.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 1e710c9..7604193 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -9,11 +9,18 @@ $Id$
 #if PY_VERSION_HEX < 0x03000000
 	#define Integer_FromLong PyInt_FromLong
 	#define AttributeName_Check PyString_Check
-	#define AttributeName_AsString PyString_AS_STRING
+	#define AttributeName_AsString(name, size) \
+		(*(size) = PyString_GET_SIZE(name), PyString_AS_STRING(name))
+	#define AttributeName_HasPrefix(name) 0 /* not used */
 #else
 	#define Integer_FromLong PyLong_FromLong
 	#define AttributeName_Check PyUnicode_Check
-	#define AttributeName_AsString PyUnicode_AsUTF8
+	#define AttributeName_AsString PyUnicode_AsUTF8AndSize
+	#define AttributeName_HasPrefix(name) \
+		(PyUnicode_GET_LENGTH(name) >= 3 && \
+		PyUnicode_READ_CHAR(name, 0) == '_' && \
+		PyUnicode_READ_CHAR(name, 1) == 'p' && \
+		PyUnicode_READ_CHAR(name, 2) == '_')
 #endif
 
 /* these constants must match the ones in persistent.py */
@@ -95,8 +102,10 @@ pb_clear(PersistentBaseObject *self)
  * "__repr__", "__class__", and "__setstate__" are also exempt. */
 
 static int
-load_triggering_name(const char *s)
+load_triggering_name(const char *s, Py_ssize_t size)
 {
+	if (strlen(s) != (size_t)size && strncmp(s, "_p_", 3) != 0)
+		return 1; /* It contains a null character. */
 	if (*s++ != '_')
 		return 1;
 	if (*s == 'p') {
@@ -188,15 +197,19 @@ static PyObject *
 pb_getattro(PersistentBaseObject *self, PyObject *name)
 {
 	const char *sname = NULL;
+	Py_ssize_t size = 0;
 	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
+	    sname = AttributeName_AsString(name, &size);
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
-	if (sname == NULL) /* e.g. a lone surrogate can't be encoded */
+	if (sname == NULL) { /* e.g. a lone surrogate can't be encoded */
 		PyErr_Clear();
-	if (sname == NULL || load_triggering_name(sname)) {
+		sname = AttributeName_HasPrefix(name) ? "_p_" : "";
+		size = strlen(sname);
+	}
+	if (load_triggering_name(sname, size)) {
 		if (!pb_load(self))
 			return NULL;
 		if (!pb_note_access(self))
@@ -209,15 +222,19 @@ static int
 pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 {
 	const char *sname = NULL;
+	Py_ssize_t size = 0;
 	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
+	    sname = AttributeName_AsString(name, &size);
 	} else {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
-	if (sname == NULL) /* e.g. a lone surrogate can't be encoded */
+	if (sname == NULL) { /* e.g. a lone surrogate can't be encoded */
 		PyErr_Clear();
-	if (sname == NULL || load_triggering_name(sname)) {
+		sname = AttributeName_HasPrefix(name) ? "_p_" : "";
+		size = strlen(sname);
+	}
+	if (load_triggering_name(sname, size)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
 				return -1;
-- 
2.43.0


From 3830b11f4c025e5cbef85eb48be72ae166d0afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 40/62] fix: the Python base class called _p_note_change() for
 objects that have been changed already

---
 durus/persistent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 3db3ca0..272bc1b 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -116,7 +116,8 @@ except ImportError:
 
         def __setattr__(self, name, value):
             if name[:3] != '_p_' and name not in _GHOST_SAFE_ATTRIBUTES:
-                self._p_note_change()
+                if self._p_status != UNSAVED:
+                    self._p_note_change()
             _setattribute(self, name, value)
 
     def call_if_persistent(f, x):
-- 
2.43.0


From 2b49ed100baea7492b96886b40edb9c952bbf082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 41/62] fix: a FileStorage pack invalidated objects that were
 committed while it was running

---
 durus/file_storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index c903334..bd68b1a 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -147,18 +147,21 @@ class FileStorage (Storage):
             file.fsync()
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
-            # Invalidate oids that have been removed.
+            # Find oids that have been removed.
+            removed = []
             for hole in shelf.get_offset_map().gen_holes():
                 yield hole
                 oid = int8_to_str(hole)
                 if self.shelf.get_position(oid) is not None:
                     assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+                    removed.append(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
             for oid in self.pack_extra:
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
+            # Commits during the pack may have stored some of them.
+            removed = [oid for oid in removed if oid not in shelf]
             file.flush()
             file.fsync()
             old_file = self.shelf.get_file()
@@ -166,6 +169,7 @@ class FileStorage (Storage):
                 old_file.preserve(file_path + '.prepack')
             shelf.get_file().rename(file_path)
             self.shelf = shelf
+            self.invalid.update(removed)
             old_file.close()
             self.pack_extra = None
             yield "finished %s" % datetime.now()
-- 
2.43.0


From 22481ab2b15488831a1c0d0ca813b02845007f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 42/62] fix: if a FileStorage pack could not create its file,
 no later pack took place

---
 durus/file_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index bd68b1a..95300a5 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -132,11 +132,11 @@ class FileStorage (Storage):
             self.shelf.get_file().is_temporary() or
             self.shelf.get_file().is_readonly()):
             return (x for x in []) # Don't pack.
-        self.pack_extra = set()
         file_path = self.shelf.get_file().get_name()
         file = File(file_path + '.pack')
         file.truncate() # obtains lock and clears.
         assert file.tell() == 0
+        self.pack_extra = set()
         def packer():
             yield "started %s" % datetime.now()
             seen = IntSet()
-- 
2.43.0


From 679710fc74d2e8b81e663ed9b7278e4b16330d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 43/62] fix: an automatic pack that could not begin ended the
 service

---
 durus/storage_server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index b615b1c..e33c732 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -291,9 +291,15 @@ class StorageServer (object):
                             s.close()
                 if (self.packer is None and
                     0 < self.gcbytes <= self.bytes_since_pack):
-                    self.packer = self.storage.get_packer()
+                    try:
+                        self.packer = self.storage.get_packer()
+                    except Exception:
+                        exc = sys.exc_info()[1]
+                        log(20, 'gc failed: %r', exc)
                     if self.packer is not None:
                         log(20, 'gc started at %s' % datetime.now())
+                    else:
+                        self.bytes_since_pack = 0 # Try again later.
                 if not r and self.packer is not None:
                     try:
                         pack_step = next(self.packer)
-- 
2.43.0


From 8559cf99b6dd7dff7ab65be93f1ab7349aff819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 44/62] fix: crawling loaded outdated records after a sync
 within the transaction

---
 durus/connection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index d82b448..b92ddc1 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -37,6 +37,9 @@ class Connection (ConnectionBase):
         Number of calls to commit() or abort() since this instance was created.
         This is used to maintain consistency, and to implement LRU replacement
         in the cache.
+      sync_count: int
+        Number of times that records read before may have become outdated,
+        because of a sync with the storage or a commit.
     """
 
     def __init__(self, storage, cache_size=100000, root_class=None):
@@ -59,6 +62,7 @@ class Connection (ConnectionBase):
         self.reader = ObjectReader(self)
         self.changed = {}
         self.invalid_oids = set()
+        self.sync_count = 0
         self.new_oid = storage.new_oid # needed by serialize
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
@@ -160,16 +164,15 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
-        transaction_serial = self.transaction_serial
+        sync_count = self.sync_count
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
-                if self.transaction_serial != transaction_serial:
-                    # The record was perhaps read in an earlier transaction,
-                    # and it may have changed since then.
+                if self.sync_count != sync_count:
+                    # It may have changed since the record was read.
                     try:
                         data = self.get_stored_pickle(oid)
                     except KeyError:
@@ -238,6 +241,7 @@ class Connection (ConnectionBase):
         Process all invalid_oids so that all non-ghost objects are current.
         """
         invalid_oids = self.storage.sync()
+        self.sync_count += 1
         self.invalid_oids.update(invalid_oids)
         for oid in self.invalid_oids:
             obj = self.cache.get(oid)
@@ -289,6 +293,7 @@ class Connection (ConnectionBase):
                             new_objects.setdefault(obj._p_oid, obj)
                         writer.close()
                 self.storage.end(self._handle_invalidations)
+                self.sync_count += 1
             except:
                 # These have not been stored, so they are still new.
                 for oid, obj in iteritems(new_objects):
@@ -307,6 +312,7 @@ class Connection (ConnectionBase):
         Check if any of the oids are for objects that were accessed during
         this transaction.  If so, raise the appropriate conflict exception.
         """
+        self.sync_count += 1
         conflicts = []
         for oid in oids:
             obj = self.cache.get(oid)
-- 
2.43.0


From d4b37e35e706324247d563080c76c4569444f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 45/62] fix: crawling raised KeyError or gave None for objects
 that a pack removed meanwhile

---
 durus/connection.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index b92ddc1..a8faf0e 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -14,6 +14,7 @@ from itertools import islice, chain
 from os import getpid
 from time import time
 from weakref import ref, KeyedRef
+import sys
 import durus.storage
 try:
     from durus._persistent import _setattribute
@@ -162,7 +163,7 @@ class Connection (ConnectionBase):
         batch_size argument sets the number of object records loaded on each
         call to bulk_load().
         """
-        oid_record_sequence = self.storage.gen_oid_record(
+        oid_record_sequence = self._gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
         sync_count = self.sync_count
         for oid, record in oid_record_sequence:
@@ -185,6 +186,20 @@ class Connection (ConnectionBase):
                 obj._p_set_status_saved()
                 yield obj
 
+    def _gen_oid_record(self, **kwargs):
+        """Like storage.gen_oid_record(), but raise ReadConflictError for an
+        object that was removed from the storage, as load_state() does.
+        """
+        count = 0
+        try:
+            for item in self.storage.gen_oid_record(**kwargs):
+                yield item
+                count += 1
+        except KeyError:
+            if count == 0:
+                raise # There is no such object.
+            raise ReadConflictError(list(sys.exc_info()[1].args))
+
     def get_cache(self):
         return self.cache
 
@@ -499,19 +514,23 @@ def touch_every_reference(connection, *words):
     get = connection.get
     reader = ObjectReader(connection)
     words = [as_bytes(w) for w in words]
-    for oid, record in connection.get_storage().gen_oid_record():
+    for oid, record in connection._gen_oid_record():
         record_oid, data, refs = unpack_record(record)
         state = reader.get_state_pickle(data)
         for word in words:
             if word in data or word in state:
-                get(oid)._p_note_change()
+                obj = get(oid)
+                if obj is not None: # It may have been removed by a pack.
+                    obj._p_note_change()
 
 def gen_every_instance(connection, *classes):
     """(connection:Connection, *classes:(class)) -> sequence [PersistentObject]
     Generate all PersistentObject instances that are instances of any of the
     given classes."""
-    for oid, record in connection.get_storage().gen_oid_record():
+    for oid, record in connection._gen_oid_record():
         record_oid, state, refs = unpack_record(record)
         record_class = loads(state)
         if issubclass(record_class, classes):
-            yield connection.get(oid)
+            obj = connection.get(oid)
+            if obj is not None: # It may have been removed by a pack.
+                yield obj
-- 
2.43.0


From a5a2b88701dd981ab3b68d93c721c4f6a96309db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 46/62] fix: a FileStorage pack did not invalidate removed
 objects with the highest oids

---
 durus/file_storage.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 95300a5..f550bc0 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -149,11 +149,9 @@ class FileStorage (Storage):
             yield "base written %s" % datetime.now()
             # Find oids that have been removed.
             removed = []
-            for hole in shelf.get_offset_map().gen_holes():
-                yield hole
-                oid = int8_to_str(hole)
-                if self.shelf.get_position(oid) is not None:
-                    assert shelf.get_position(oid) is None
+            for oid in self.shelf:
+                yield None
+                if oid not in shelf:
                     removed.append(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
-- 
2.43.0


From 15c154f32b687175265f4f3272fce36ee4d1af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 47/62] fix: a SqliteStorage pack did not invalidate the
 objects that it removed

---
 durus/sqlite_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index f340e06..514137c 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -251,6 +251,7 @@ class SqliteStorage(Storage):
             # new reference to one of them
             self.pack_extra = None
             self._delete(dead)
+            self.invalid.update(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return gen_pack_steps(self, packer())
-- 
2.43.0


From 27ddc581fdb7a4d37ff5e58bb63f9b195b6a1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 48/62] fix: clients were not told to sync about objects that a
 pack removed

---
 durus/storage_server.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index e33c732..1a936a4 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -370,7 +370,12 @@ class StorageServer (object):
                 record = self.storage.load(oid)
             except KeyError:
                 log(10, 'KeyError %s', str_to_int8(oid))
-                write(s, STATUS_KEYERROR)
+                self._sync_storage()
+                if oid in self._find_client(s).invalid:
+                    # It was there when this client's transaction began.
+                    write(s, STATUS_INVALID)
+                else:
+                    write(s, STATUS_KEYERROR)
             except ReadConflictError:
                 log(10, 'ReadConflictError %s', str_to_int8(oid))
                 write(s, STATUS_INVALID)
-- 
2.43.0


From a952899c2c00d861517b12aebbbc1d6c184c5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 49/62] fix: a conflict about an object that was changed
 without being read raised AssertionError

---
 durus/connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index a8faf0e..f58b706 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -324,8 +324,8 @@ class Connection (ConnectionBase):
 
     def _handle_invalidations(self, oids, read_oid=None):
         """(oids:[str], read_oid:str=None)
-        Check if any of the oids are for objects that were accessed during
-        this transaction.  If so, raise the appropriate conflict exception.
+        Check if any of the oids are for objects that were accessed or changed
+        during this transaction.  If so, raise the appropriate conflict exception.
         """
         self.sync_count += 1
         conflicts = []
@@ -333,11 +333,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From c74fc8e7bc387fea3ac05860862bfa10755f13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 50/62] fix: crawling loaded records into ghosts of removed
 objects of other classes

---
 durus/connection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index f58b706..b36ac35 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -178,9 +178,9 @@ class Connection (ConnectionBase):
                         data = self.get_stored_pickle(oid)
                     except KeyError:
                         continue # Removed by a pack.
-                if obj is None:
-                    klass = loads(data)
-                    obj = self.cache.get_instance(oid, klass, self)
+                # A ghost may be left from an object that had the oid before.
+                klass = loads(data)
+                obj = self.cache.get_instance(oid, klass, self)
                 state = self.reader.get_state(data, load=True)
                 obj.__setstate__(state)
                 obj._p_set_status_saved()
@@ -532,5 +532,10 @@ def gen_every_instance(connection, *classes):
         record_class = loads(state)
         if issubclass(record_class, classes):
             obj = connection.get(oid)
-            if obj is not None: # It may have been removed by a pack.
-                yield obj
+            if obj is None:
+                continue # It has been removed by a pack.
+            if obj._p_is_ghost():
+                # It may be left from an object that had the oid before.
+                obj = connection.get_cache().get_instance(
+                    oid, record_class, connection)
+            yield obj
-- 
2.43.0


From e0e8f9e8e897f45b07164c673f686b0eda2ccd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 51/62] fix: with much logging, a record without class name
 made a commit fail after it was stored

---
 durus/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fdc4be..70742b7 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -52,7 +52,7 @@ def extract_class_name(record):
         oid, state, refs = unpack_record(record)
         return state.split(NEWLINE, 2)[1]
     except IndexError:
-        return "?"
+        return as_bytes("?")
 
 if sys.version < "3":
     def method(a, b):
-- 
2.43.0


From 4b770c805773e43df09f103010f4071d31768434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 52/62] fix: a malformed commit could store pieces of records,
 even as the root

---
 durus/storage_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 1a936a4..5f0717c 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -408,6 +408,8 @@ class StorageServer (object):
         while i < len(tdata):
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
+            if rlen < 8 or rlen > len(tdata) - i:
+                raise ClientError("malformed commit")
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
-- 
2.43.0


From 6b05fa0eb93983557a4f383f9a30a7de896ae702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 53/62] fix: a commit refused by the server left records
 pending in the storage

---
 durus/storage_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 5f0717c..c1121fd 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -402,9 +402,9 @@ class StorageServer (object):
             return # client decided not to commit (e.g. conflict)
         logging_debug = is_logging(10)
         logging_debug and log(10, 'Committing %s bytes', len(tdata))
-        self.storage.begin()
         i = 0
         oids = []
+        records = []
         while i < len(tdata):
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
@@ -417,14 +417,18 @@ class StorageServer (object):
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
                     str_to_int8(oid), rlen, class_name)
-            self.storage.store(oid, record)
             oids.append(oid)
+            records.append(record)
         assert i == len(tdata)
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
                 if oid_set.intersection(other_client.unused_oids):
                     raise ClientError("invalid oid: %r" % oid)
+        # Nothing of a commit that is refused is left in the storage.
+        self.storage.begin()
+        for oid, record in zip(oids, records):
+            self.storage.store(oid, record)
         try:
             self.storage.end(handle_invalidations=self._handle_invalidations)
         except ConflictError:
-- 
2.43.0


From 238591d101d19b253b83277c2a6d92e1011c59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 54/62] fix: a FileStorage2 could not be used after
 create_from_records()

---
 durus/file_storage2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index ed65028..bfcfcf8 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -353,3 +353,5 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        self.oid = max([-1] + [str_to_int8(oid) for oid in index])
-- 
2.43.0


From 74bbe707652776505c892efc991c36b3564c13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 55/62] fix: a SqliteStorage gave used oids again after
 create_from_records()

---
 durus/sqlite_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 514137c..bf28241 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -272,3 +272,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid() + 1
-- 
2.43.0


From 12cb36437f023cfd47a7d0c3687236b977227bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 56/62] fix: the umask stayed changed if a socket could not be
 bound

---
 durus/storage_server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index c1121fd..e5d813e 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -168,6 +168,13 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
     def bind_socket(self, s):
         if self.umask is not None:
             old_umask = umask(self.umask)
+        try:
+            self._bind_socket(s)
+        finally:
+            if self.umask is not None:
+                umask(old_umask)
+
+    def _bind_socket(self, s):
         try:
             s.bind(self.filename)
         except socket.error:
@@ -200,8 +207,6 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 gid = getgrnam(self.group).gr_gid
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From 382141094b0d4e73b7e7154b50e8f154e0eea01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 57/62] fix: starting a server removed an empty file or a named
 pipe at the path of its socket

---
 durus/storage_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index e5d813e..5af91e1 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -11,6 +11,7 @@ from durus.utils import read_int4, read_int4_str, write_int4_str
 from durus.utils import join_bytes, write_all, next, as_bytes
 from durus.systemd_socket import get_systemd_socket
 from os.path import exists
+from stat import S_ISSOCK
 from time import sleep
 import errno
 import select
@@ -182,8 +183,8 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
             error = exc.args[0]
             if not exists(self.filename):
                 raise
-            if stat(self.filename).st_size > 0:
-                raise
+            if not S_ISSOCK(stat(self.filename).st_mode):
+                raise # It is not ours.
             if error == errno.EADDRINUSE:
                 connected = self.get_connected_socket()
                 if connected:
-- 
2.43.0


From 99b96d5dd478968952a0a4a54f94daedc605151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:42 +0000
Subject: [PATCH 58/62] fix: a server that ended could remove the socket file
 of its successor

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 5af91e1..501b9e1 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -210,9 +210,10 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
             chown(self.filename, uid, gid)
 
     def close(self, s):
-        s.close()
+        # After s.close(), the file may be that of another server.
         if exists(self.filename):
             unlink(self.filename)
+        s.close()
 
 
 class InheritedSocket(SocketAddress):
-- 
2.43.0


From bdf097f3399a34daf5748f0280cd18d195b3bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 59/62] fix: the startup file of the interactive client was not
 executed by Python 3

---
 durus/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/__main__.py b/durus/__main__.py
index 509b16d..0122161 100644
--- a/durus/__main__.py
+++ b/durus/__main__.py
@@ -62,7 +62,8 @@ def interactive_client(file, address, cache_size, readonly, repair,
         vars(console_module), os.path.expanduser("~/.durushistory"))
     console = InteractiveConsole(vars(console_module))
     if startup:
-        console.runsource('execfile("%s")' % os.path.expanduser(startup))
+        console.runsource(
+            'exec(open(%r).read())' % os.path.expanduser(startup))
     help = ('    connection -> the Connection\n'
             '    root       -> the root instance')
     console.interact('Durus %s\n%s' % (description, help))
-- 
2.43.0


From 58ad58da26c6864970330dfddac9001578058af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:27 +0000
Subject: [PATCH 60/62] fix: str() of an inherited abstract socket raised
 TypeError

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 501b9e1..48d9331 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -221,9 +221,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes) and b'\0' in self.name:
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(b'\0', b'@')
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From 1ea17325455d1559c100a7a2a76a1367dccb9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:04 +0000
Subject: [PATCH 61/62] fix: db_to_py3k.py compared (and loaded) objects that
 it was unpickling: RecursionError

---
 bin/db_to_py3k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/db_to_py3k.py b/bin/db_to_py3k.py
index 4805473..87c491a 100644
--- a/bin/db_to_py3k.py
+++ b/bin/db_to_py3k.py
@@ -33,7 +33,7 @@ def decode_string(self, value):
     else:
         last = None
     # check for data that should be retained as byte strings
-    if last in [date, datetime]:
+    if last is date or last is datetime:
         return value
     if len(value) == 8 and value[:4] == b'\0\0\0\0':
         # assume oid, keep as bytes
-- 
2.43.0


From 0f02343c95675609bb80d20867902f1147cb67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:33 +0000
Subject: [PATCH 62/62] fix: get_state_pickle() returned bytes of the
 compressed state after a shorter state

---
 durus/serialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/serialize.py b/durus/serialize.py
index 70742b7..18ddf4f 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -188,6 +188,7 @@ class ObjectReader (object):
                 pass # let the unpickler try anyway.
             else:
                 s.write(decompressed)
+                s.truncate() # It may be shorter than the compressed state.
                 s.seek(position)
         if load:
             return unpickler.load()
-- 
2.43.0

