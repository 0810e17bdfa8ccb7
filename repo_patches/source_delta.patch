From e42dea340206e8a4ec01061dedf40c6564f442be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 01/42] fix: Reference: index all nodes of a subtree added to a
 tree

Descendants of the added node kept referring to the old index, and a
rejected assignment left the node in the index.
---
 src/node/behaviors/reference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..e5b9bc9 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -46,9 +46,12 @@ class Reference(Behavior):
                     raise ValueError('Node with uuid already exists')
             except StopIteration:
                 pass
+            val._index  # fail before touching anything if no reference
+        _next(self, key, val)
+        if INode.providedBy(val):
             self._index.update(val._index)
             val._index = self._index
-        _next(self, key, val)
+            val._index_nodes()
 
     @plumb
     def __delitem__(_next, self, key):
-- 
2.43.0


From da2ebb0a26305b32fb04624d7e75c4fbbd9e5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 02/42] fix: Reference: reject childless node with already used
 uuid

---
 src/node/behaviors/reference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index e5b9bc9..474e38b 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -46,7 +46,9 @@ class Reference(Behavior):
                     raise ValueError('Node with uuid already exists')
             except StopIteration:
                 pass
-            val._index  # fail before touching anything if no reference
+            for iuuid, node in val._index.items():
+                if self._index.get(iuuid, node) is not node:
+                    raise ValueError('Node with uuid already exists')
         _next(self, key, val)
         if INode.providedBy(val):
             self._index.update(val._index)
-- 
2.43.0


From 9f0bce17915c606d18282e2be64f5a49a4ae9308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 03/42] fix: Reference: removed subtree gets its own index

Nodes removed with del, pop, popitem or clear kept sharing the index of the
tree they were removed from, and could not be added to a tree again. A failing
deletion removed the node from the index.
---
 src/node/behaviors/reference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 474e38b..4423eba 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -59,10 +59,13 @@ class Reference(Behavior):
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
+        _next(self, key)
         if hasattr(todel, '_to_delete'):
             for iuuid in todel._to_delete():
                 del self._index[iuuid]
-        _next(self, key)
+            # removed node no longer belongs to the index of this tree
+            todel._index = {int(todel.uuid): todel}
+            todel._index_nodes()
 
     @plumb
     def detach(_next, self, key):
-- 
2.43.0


From b4be621d1f780f0c0ba0ea00938db87961972611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 04/42] fix: Reference: do not confuse nil uuid with no uuid

---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 4423eba..bdaf195 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -81,11 +81,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From 879d733e1784bcae0512d60208fe851e85c57de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 05/42] fix: Order: reject insertion of a node whose name is
 already in use

Inserting it anyway corrupts the linked list of the ordered dict.
---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..727b9a6 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -57,3 +57,5 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        if node.name in self.storage:
+            raise ValueError('Given node name already used by a child.')
-- 
2.43.0


From 33d0668d53523a3cb9b764ef602d892da73ae15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 06/42] fix: Order: do not keep rejected nodes in storage on
 insertion

---
 src/node/behaviors/order.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 727b9a6..cf97b88 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -37,7 +37,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -46,7 +46,16 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
+
+    @override
+    def _setinserted(self, newnode):
+        try:
+            self[newnode.name] = newnode
+        except Exception:
+            # node got rejected, do not keep it in storage
+            del self.storage[newnode.name]
+            raise
 
     @override
     def _validateinsertion(self, node):
-- 
2.43.0


From 56d8aec2a7b520853295f8e598f473196f63b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 07/42] fix: Order: validate node inserted first or last into
 empty node

---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index cf97b88..2ee5e66 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -16,6 +16,7 @@ class Order(Behavior):
     def insertfirst(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[0]]
@@ -25,6 +26,7 @@ class Order(Behavior):
     def insertlast(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[-1]]
-- 
2.43.0


From 7e1d5fe15a3e093b443c785a401fc34352f11d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 08/42] fix: Fallback: initialize processing counter in each
 thread

---
 src/node/behaviors/fallback.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..6a78da9 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,12 @@ import threading
 _marker = dict()
 
 
+class _processing(threading.local):
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 19ce7e275de2a6696d9d286d3f3af5422ee37825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 09/42] fix: Fallback: continue to root if fallback child does
 not exist

---
 src/node/behaviors/fallback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 6a78da9..0cb9104 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -34,7 +34,10 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 020b4560ff143225a5f25fbf5f004a6e422fb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 10/42] fix: Events: initialize thread local data in each
 thread

---
 src/node/behaviors/events.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..82b5f81 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppressed(threading.local):
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +68,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppressed()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +93,13 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _local_subscribers(threading.local):
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _local_subscribers()
 
 
 @contextmanager
-- 
2.43.0


From 7daba4008ab581356cf558df588b48b4f35f46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 11/42] fix: suppress_events: register suppressed events on
 enter

---
 src/node/behaviors/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 82b5f81..7ad2eaf 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -74,11 +74,11 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
         self.events = events
 
     def __enter__(self):
+        for event in self.events:
+            self.data.events.append(event)
         self.data.suppress += 1
         return self.data.suppress
 
-- 
2.43.0


From 565d09eea9010ce536814b1fc179f0146d8f9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 12/42] fix: Events: subscribers may unbind while event is
 dispatched

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 7ad2eaf..83d7dc2 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -314,5 +314,5 @@ class Events(Behavior):
                 return
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From 52293c665533e615bc163362b659627be70c4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 13/42] fix: Events: do not leak events of subclasses to base
 class

---
 src/node/behaviors/events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 83d7dc2..4f7fd42 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,8 +24,9 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
+    if '__events__' not in cls.__dict__:
+        # do not share events with base class and its other subclasses
+        cls.__events__ = list(getattr(cls, '__events__', ()))
     events = cls.__events__
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
-- 
2.43.0


From 73dbf174400a59184e649cd548d3845d8fb44895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 14/42] fix: Lifecycle: failing detach must not suppress events
 forever

---
 src/node/behaviors/lifecycle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..0910986 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -51,8 +51,10 @@ class Lifecycle(Behavior):
     @plumb
     def detach(_next, self, key):
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = False
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From c928d41ec08825a824e2499a2926b1eacd461210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 15/42] fix: SuffixAliaser: unalias without suffix returns the
 key

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 607709a96aa3c9d2e6968353c6f7086fab33e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 16/42] fix: NodeDecoder: decode values of dicts

---
 src/node/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..3224eb4 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -194,7 +194,8 @@ class NodeDecoder(object):
                     callback(self, node, node_data)
             return node
         # no custom deserialization required
-        return data
+        return dict((key, self.decode(value, parent=parent))
+                    for key, value in data.items())
 
 
 ###############################################################################
-- 
2.43.0


From 8a6383bb7dbdec7dabbe881791a20f23d7f7b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 17/42] fix: NodeDecoder: resolve names in modules not imported
 yet

---
 src/node/serializer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 3224eb4..414bc13 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -146,8 +146,16 @@ class NodeDecoder(object):
         """
         components = name.split('.')
         ob = __import__(components[0])
-        for comp in components[1:]:
-            ob = getattr(ob, comp)
+        for idx, comp in enumerate(components[1:], 2):
+            try:
+                ob = getattr(ob, comp)
+            except AttributeError:
+                # submodule not imported yet
+                try:
+                    __import__('.'.join(components[:idx]))
+                except ImportError:
+                    pass
+                ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From c920cac6b31957610b9631ab2f45945e7001608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 18/42] fix: serializer: support attribute_access_for_attrs

---
 src/node/serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 414bc13..cdb7124 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -6,6 +6,7 @@ from node.compat import IS_PY2
 from node.compat import STR_TYPE
 from node.interfaces import IAttributes
 from node.interfaces import INode
+from node.utils import AttributeAccess
 from node.utils import UNSET
 from odict import odict
 from zope.interface import Interface
@@ -235,7 +236,10 @@ def deserialize_node(decoder, node, data):
 @serializer(IAttributes)
 def serialize_node_attributes(encoder, node, data):
     attrs = data.setdefault('attrs', dict())
-    for name, child in node.attrs.items():
+    node_attrs = node.attrs
+    if isinstance(node_attrs, AttributeAccess):
+        node_attrs = object.__getattribute__(node_attrs, 'context')
+    for name, child in node_attrs.items():
         attrs[name] = encoder.default(child)
 
 
-- 
2.43.0


From 2d8d5b5f66c54a8e29da8c81489ca2a3688b1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 19/42] fix: GetattrChildren: raise AttributeError for
 inexistent attribute

---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..b323145 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -134,7 +134,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From 0f35e59327d2cecd7e64bc2a5b39fa9f6d6da33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 20/42] fix: Adopt: revert adoption regardless of what went
 wrong

---
 src/node/behaviors/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index b323145..1a3a0db 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except Exception:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From 71314c257a5f7fbb261566853c13fd3478691063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 21/42] fix: UUIDAware: ignore non-node children when setting
 uuids

---
 src/node/behaviors/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 1a3a0db..feeb485 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -210,4 +210,5 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From 08ebe4c26bf3cb4c9b4ea83c92bf221a61f528e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 22/42] fix: Nodespaces: support non-string keys on write
 access

---
 src/node/behaviors/nodespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/nodespace.py b/src/node/behaviors/nodespace.py
index 9169929..2a4144a 100644
--- a/src/node/behaviors/nodespace.py
+++ b/src/node/behaviors/nodespace.py
@@ -41,7 +41,9 @@ class Nodespaces(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             val.__name__ = key
@@ -54,7 +56,9 @@ class Nodespaces(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             del self.nodespaces[key]
-- 
2.43.0


From 15f9c7a7179935eb4be17e65102c0ddce67e22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 23/42] fix: UNSET keeps its identity if copied or pickled

---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..04d52ce 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # always copy and unpickle to the same object
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From 75a20bf4cf9c101b2d22dc6bfdadbaea0757bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 24/42] fix: TreeLock: concurrent first access must not create
 several locks

---
 src/node/locking.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..f6bbe1f 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -2,13 +2,17 @@
 from threading import RLock
 
 
+# guards the creation of tree locks
+_creation_lock = RLock()
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
-        if self.lock is None:
-            self.lock = root._treelock = RLock()
+        with _creation_lock:
+            self.lock = getattr(root, '_treelock', None)
+            if self.lock is None:
+                self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From ef0f6edce132bd309961e2b772e88b3c850c8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 25/42] fix: Events: objects with constructor arguments can be
 created

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 4f7fd42..6b08541 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -247,7 +247,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From c9c537438af23f6d523ea7a7e472096f807e201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 26/42] fix: Cache: deleted child must not be cached again
 while deleting it

Reference and Lifecycle read the child to delete, which put it back to the
cache.
---
 src/node/behaviors/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..7dd565d 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -114,6 +114,11 @@ class Cache(Behavior):
         except KeyError:
             pass
         _next(self, key)
+        try:
+            # child may have been read again while deleting it
+            del self.cache[key]
+        except KeyError:
+            pass
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From 5df21b9fa07a934e19b98a775bdf3441ba076f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 27/42] fix: Reference: classes as values are no referencing
 nodes

Deleting or indexing a class used as child value failed with TypeError.
---
 src/node/behaviors/reference.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index bdaf195..bd955b4 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -60,7 +60,7 @@ class Reference(Behavior):
         # fail immediately if key does not exist
         todel = self[key]
         _next(self, key)
-        if hasattr(todel, '_to_delete'):
+        if IReference.providedBy(todel):
             for iuuid in todel._to_delete():
                 del self._index[iuuid]
             # removed node no longer belongs to the index of this tree
@@ -104,22 +104,19 @@ class Reference(Behavior):
     def _to_delete(self):
         todel = [int(self.uuid)]
         for childkey in self:
-            try:
-                todel += self[childkey]._to_delete()
-            except AttributeError:
-                # Non-Node values or non referencing children are not told
-                # about deletion.
-                continue
+            child = self[childkey]
+            # Non-Node values or non referencing children are not told
+            # about deletion.
+            if IReference.providedBy(child):
+                todel += child._to_delete()
         return todel
 
     @default
     def _index_nodes(self):
         for node in self.values():
-            try:
-                uuid = int(node.uuid)
-            except AttributeError:
-                # non-Node values are a dead end, no magic for them
+            # non-Node values are a dead end, no magic for them
+            if not IReference.providedBy(node):
                 continue
-            self._index[uuid] = node
+            self._index[int(node.uuid)] = node
             node._index = self._index
             node._index_nodes()
-- 
2.43.0


From 45488ea610f7532e4aadf5209da35bc0e79e6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 28/42] fix: Order: ordering operations respect the aliaser of
 aliased nodes

---
 src/node/behaviors/order.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 2ee5e66..9cebed8 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -10,7 +10,10 @@ class Order(Behavior):
 
     @override
     def swap(self, node_a, node_b):
-        self.storage.swap(node_a.name, node_b.name)
+        self.storage.swap(
+            self._storagekey(node_a.name),
+            self._storagekey(node_b.name)
+        )
 
     @override
     def insertfirst(self, newnode):
@@ -35,8 +38,10 @@ class Order(Behavior):
     @override
     def insertbefore(self, newnode, refnode):
         self._validateinsertion(newnode)
+        newkey = self._storagekey(newnode.name)
         try:
-            self.storage.insertbefore(refnode.name, newnode.name, newnode)
+            refkey = self._storagekey(refnode.name)
+            self.storage.insertbefore(refkey, newkey, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
         self._setinserted(newnode)
@@ -44,8 +49,10 @@ class Order(Behavior):
     @override
     def insertafter(self, newnode, refnode):
         self._validateinsertion(newnode)
+        newkey = self._storagekey(newnode.name)
         try:
-            self.storage.insertafter(refnode.name, newnode.name, newnode)
+            refkey = self._storagekey(refnode.name)
+            self.storage.insertafter(refkey, newkey, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
         self._setinserted(newnode)
@@ -56,9 +63,15 @@ class Order(Behavior):
             self[newnode.name] = newnode
         except Exception:
             # node got rejected, do not keep it in storage
-            del self.storage[newnode.name]
+            del self.storage[self._storagekey(newnode.name)]
             raise
 
+    @override
+    def _storagekey(self, name):
+        # case if Alias behavior is mixed in
+        aliaser = getattr(self, 'aliaser', None)
+        return aliaser.unalias(name) if aliaser else name
+
     @override
     def _validateinsertion(self, node):
         if node.name is None:
@@ -68,5 +81,5 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
-        if node.name in self.storage:
+        if self._storagekey(node.name) in self.storage:
             raise ValueError('Given node name already used by a child.')
-- 
2.43.0


From 98c2d9d2a6dcd876744a712884807097ee985766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 29/42] fix: Cache: invalidating everything passes no key on to
 the next behavior

---
 src/node/behaviors/cache.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 7dd565d..767fe21 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,7 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            cache.clear()
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From 19be2ed173a3b86f83edec947a3b6b0a5ed25f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 30/42] fix: VolatileStorageInvalidate: respect the aliaser of
 aliased nodes

---
 src/node/behaviors/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 767fe21..488f4ab 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -56,8 +56,10 @@ class VolatileStorageInvalidate(Behavior):
         storage = self.storage
         if key is not None:
             if key in _keys(self):
+                # case if Alias behavior is mixed in
+                aliaser = getattr(self, 'aliaser', None)
                 try:
-                    del storage[key]
+                    del storage[aliaser.unalias(key) if aliaser else key]
                 except KeyError:
                     pass  # ignore, key is valid, but not on storage right now
             else:
-- 
2.43.0


From d5864469163c215bead137cd4f9a7cdc017c46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 31/42] fix: Events: do not extend the list of events given by
 a class

---
 src/node/behaviors/events.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 6b08541..d6bf457 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,10 +24,9 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if '__events__' not in cls.__dict__:
-        # do not share events with base class and its other subclasses
-        cls.__events__ = list(getattr(cls, '__events__', ()))
-    events = cls.__events__
+    # do not share events with base class, its other subclasses and classes
+    # defined with the same list of events
+    events = cls.__events__ = list(getattr(cls, '__events__', ()))
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
             if attr not in events:
-- 
2.43.0


From 57cb382cf6cc3278f3b8e54bdb5aacdb543126da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 32/42] fix: Nodify.acquire: do not stop at nodes which are
 false

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..b2c96ca 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 89e796acac6fcff63821656937c3f0832bd1cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 33/42] fix: node.events can be imported before node.behaviors

---
 src/node/events.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/events.py b/src/node/events.py
index af70eb5..446989d 100644
--- a/src/node/events.py
+++ b/src/node/events.py
@@ -1,8 +1,4 @@
 # -*- coding: utf-8 -*-
-from node.behaviors import EventAttribute
-from node.behaviors import Events
-from node.behaviors import UnknownEvent
-from node.behaviors import suppress_events
 from node.interfaces import INodeAddedEvent
 from node.interfaces import INodeCreatedEvent
 from node.interfaces import INodeDetachedEvent
@@ -49,6 +45,14 @@ class NodeDetachedEvent(ObjectRemovedEvent):
 # Event dispatcher using IEvents plumbing behavior
 ###############################################################################
 
+# ``node.behaviors`` imports the events above, thus it must not be imported
+# before they are defined
+from node.behaviors import EventAttribute
+from node.behaviors import Events
+from node.behaviors import UnknownEvent
+from node.behaviors import suppress_events
+
+
 @plumbing(Events)
 class EventDispatcher(object):
     """Object providing event dispatching.
-- 
2.43.0


From f426b130bfde19573e6aa8e63c2ab9b00fb29caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 34/42] fix: IAttributes declares attributes_factory as used by
 Attributes

---
 src/node/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/interfaces.py b/src/node/interfaces.py
index e41c6eb..2f178ba 100644
--- a/src/node/interfaces.py
+++ b/src/node/interfaces.py
@@ -334,7 +334,7 @@ class IAttributes(Interface):
     """Plumbing behavior to provide attributes on node.
     """
     attrs = Attribute('``INodeAttributes`` implementation.')
-    attrs_factory = Attribute('``INodeAttributes`` implementation class.')
+    attributes_factory = Attribute('``INodeAttributes`` implementation class.')
 
 
 class ILifecycle(Interface):
-- 
2.43.0


From 7fa5e45e23ecc8c5bb4a755626b43c448b179b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 35/42] fix: UnicodeAware: decode byte strings on python 3, too

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index feeb485..f3f808d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -159,21 +159,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0


From ecd4fe1477b347f1f94a9f924ede2d70c1c86539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 36/42] fix: serializer: resolvable names for nested node
 classes

---
 src/node/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index cdb7124..5bf0b24 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -102,7 +102,10 @@ class NodeEncoder(json.JSONEncoder):
                 [ob.im_class.__module__, ob.im_class.__name__, ob.__name__]
             )
         else:
-            return '.'.join([ob.__module__, ob.__class__.__name__])
+            cls = ob.__class__
+            return '.'.join(
+                [ob.__module__, cls.__name__ if IS_PY2 else cls.__qualname__]
+            )
 
     def default(self, ob):
         # serialize UNSET
-- 
2.43.0


From 1615701937821e40fcd0e5e05ca74fc322b762fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 37/42] fix: TreeLock: trees which were locked once can be
 copied and pickled

---
 src/node/locking.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index f6bbe1f..98c3313 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,5 +1,14 @@
 # -*- coding: utf-8 -*-
-from threading import RLock
+import threading
+
+
+class RLock(type(threading.RLock())):
+    """Reentrant lock. It is never copied or pickled along with the node it is
+    set on, copies of a tree get a new lock.
+    """
+
+    def __reduce__(self):
+        return self.__class__, ()
 
 
 # guards the creation of tree locks
-- 
2.43.0


From 661f367912a768b1c9a46ab965c90ad638459cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 38/42] fix: Adopt, Order: roll back whatever was raised,
 interrupts included

---
 src/node/behaviors/common.py | 2 +-
 src/node/behaviors/order.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index f3f808d..ff6ea2b 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,7 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except Exception:
+        except BaseException:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 9cebed8..8185b8b 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -61,7 +61,7 @@ class Order(Behavior):
     def _setinserted(self, newnode):
         try:
             self[newnode.name] = newnode
-        except Exception:
+        except BaseException:
             # node got rejected, do not keep it in storage
             del self.storage[self._storagekey(newnode.name)]
             raise
-- 
2.43.0


From 6c2ea1894acf453aac3dda45e4832a6b48081c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 39/42] fix: Fallback: lookups on other nodes while searching
 find their fallback, too

---
 src/node/behaviors/fallback.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 0cb9104..74a3665 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -11,18 +11,32 @@ _marker = dict()
 
 
 class _processing(threading.local):
-    processing = -1
+
+    def __init__(self):
+        self.nodes = list()
 
 
 class fallback_processing(object):
     data = _processing()
 
+    def __init__(self, node=None):
+        self.node = node
+
     def __enter__(self):
-        self.data.processing += 1
-        return self.data.processing
+        # lookups on other nodes may happen while searching
+        count = len([node for node in self.data.nodes if node is self.node])
+        self.data.nodes.append(self.node)
+        return count
 
     def __exit__(self, type, value, traceback):
-        self.data.processing -= 1
+        self.data.nodes.pop()
+
+
+def _get(node, key):
+    """Return child of node without searching for fallback.
+    """
+    with fallback_processing(node):
+        return node.get(key, _marker)
 
 
 def _to_root(node, path, visited):
@@ -34,7 +48,7 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    fallback = parent.get(parent.fallback_key, _marker)
+    fallback = _get(parent, parent.fallback_key)
     if fallback is _marker:
         return _to_root(parent, path=path, visited=visited)
     return _to_leaf(fallback, path=path, visited=visited)
@@ -45,7 +59,7 @@ def _to_leaf(node, path, visited):
     """
     current = node
     for name in path[len(current.path):]:
-        new_current = current.get(name, _marker)
+        new_current = _get(current, name)
         if new_current is _marker:
             return _to_root(current, path=path, visited=visited)
         current = new_current
@@ -65,7 +79,7 @@ class Fallback(Behavior):
         try:
             value = _next(self, key)
         except KeyError:
-            with fallback_processing() as count:
+            with fallback_processing(self) as count:
                 if count > 0:
                     raise
                 value = _to_root(self, path=self.path + [key], visited=set())
-- 
2.43.0


From c55cefa59924f975de9cd2055a853a9febaca8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 40/42] fix: EventAttribute: decorated subscribers are called
 for their own event only

---
 src/node/behaviors/events.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index d6bf457..3579e88 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -103,14 +103,20 @@ _attribute_subscribers = _local_subscribers()
 
 
 @contextmanager
-def _subscribers(subscribers):
+def _subscribers(obj, event, subscribers):
     """Context manager to inject subscribers to ``Events.dispatch``.
 
     Used in to inject subscribers registered with
     ``EventAttributes.subscriber`` decorator.
     """
-    _attribute_subscribers.subscribers = subscribers
-    yield
+    injected = _attribute_subscribers.subscribers
+    entry = [obj, event, subscribers]
+    injected.append(entry)
+    try:
+        yield
+    finally:
+        # no longer contained if dispatched
+        injected[:] = [other for other in injected if other is not entry]
 
 
 class EventAttribute(object):
@@ -193,14 +199,15 @@ class EventAttribute(object):
         old_value = storage.get(self.name, self.default)
         storage[self.name] = value
         if self.always_dispatch or value != old_value:
-            with _subscribers(self.subscribers):
+            with _subscribers(obj, self.name, self.subscribers):
                 obj.dispatch(self.name, value)
 
     def __delete__(self, obj):
         """Delete attribute value.
         """
         del getattr(obj, self.storage)[self.name]
-        obj.dispatch(self.name, UNSET)
+        with _subscribers(obj, self.name, list()):
+            obj.dispatch(self.name, UNSET)
 
     def subscriber(self, func):
         """Event attribute subscriber decorator.
@@ -305,8 +312,10 @@ class Events(Behavior):
         :param args: Arguments passed to subscribers.
         :patam kw: Keyword arguments passed to subscribers.
         """
-        attribute_subscribers = _attribute_subscribers.subscribers
-        _attribute_subscribers.subscribers = list()
+        attribute_subscribers = list()
+        injected = _attribute_subscribers.subscribers
+        if injected and injected[-1][0] is self and injected[-1][1] == event:
+            attribute_subscribers = injected.pop()[2]
         if suppress_events.data.suppress > 0:
             if ALL_EVENTS in suppress_events.data.events:
                 return
-- 
2.43.0


From 626ddf64854f0d28f63e1985f79a379bbaf9528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 41/42] fix: Order: keep an inserted node if something fails
 after it was accepted

---
 src/node/behaviors/order.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 8185b8b..3074027 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -39,31 +39,37 @@ class Order(Behavior):
     def insertbefore(self, newnode, refnode):
         self._validateinsertion(newnode)
         newkey = self._storagekey(newnode.name)
+        # keeps the place until node is accepted
+        placeholder = object()
         try:
             refkey = self._storagekey(refnode.name)
-            self.storage.insertbefore(refkey, newkey, newnode)
+            self.storage.insertbefore(refkey, newkey, placeholder)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self._setinserted(newnode)
+        self._setinserted(newnode, newkey, placeholder)
 
     @override
     def insertafter(self, newnode, refnode):
         self._validateinsertion(newnode)
         newkey = self._storagekey(newnode.name)
+        # keeps the place until node is accepted
+        placeholder = object()
         try:
             refkey = self._storagekey(refnode.name)
-            self.storage.insertafter(refkey, newkey, newnode)
+            self.storage.insertafter(refkey, newkey, placeholder)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self._setinserted(newnode)
+        self._setinserted(newnode, newkey, placeholder)
 
     @override
-    def _setinserted(self, newnode):
+    def _setinserted(self, newnode, newkey, placeholder):
         try:
             self[newnode.name] = newnode
         except BaseException:
-            # node got rejected, do not keep it in storage
-            del self.storage[self._storagekey(newnode.name)]
+            # node got rejected, do not keep its place in storage. if accepted,
+            # something failed later on, e.g. a subscriber
+            if self.storage.get(newkey) is placeholder:
+                del self.storage[newkey]
             raise
 
     @override
-- 
2.43.0


From 2806782c191372a1221c21d73eb0896fdc6691c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 42/42] fix: Order: respect names given as byte strings on
 unicode aware nodes

---
 src/node/behaviors/order.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 3074027..98bbf49 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 from node.interfaces import IOrder
+from node.interfaces import IUnicodeAware
+from node.utils import decode
 from plumber import Behavior
 from plumber import override
 from zope.interface import implementer
@@ -74,6 +76,9 @@ class Order(Behavior):
 
     @override
     def _storagekey(self, name):
+        # case if UnicodeAware behavior is mixed in
+        if isinstance(name, bytes) and IUnicodeAware.providedBy(self):
+            name = decode(name)
         # case if Alias behavior is mixed in
         aliaser = getattr(self, 'aliaser', None)
         return aliaser.unalias(name) if aliaser else name
-- 
2.43.0

