From 9236c6fcbe64a9c3f89073a635c0f8cef465b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 01/39] fix: removing a node with several parents left it in
 some of them

_remove_node iterated over node.parents while _destroy_relationship removed
items from it, so every second parent kept the removed node as its child.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From 633f6812d9c3d3bc7b8cbbb77e364ce44bf42f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 02/39] fix: moving a node kept some parents, a refused move
 lost them all

set_parent iterated over self.parents while remove_parent removed items from
it, so a node with several parents was not moved away from all of them.  It
also dropped the old parents before the new one was known to be acceptable: a
move under a descendant was refused but left the node without its parents.
---
 liblarch/treenode.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..23543ef 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,12 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
-                    for node_id in self.parents:
+                    # First we add the new parent, it might be refused
+                    self.add_parent(parent_id)
+                    # Then we remove all the other parents
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
-                        self.add_parent(parent_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From 0d8ef2dc05606fa5deebe8552d3c954c31b3732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 03/39] fix: a node refused because of a circular parent was
 half added

_add_node noticed the circular parent only after it had registered the node
and its late relationships: the node stayed in the tree without being
reachable from the root and without any view being told about it.
---
 liblarch/tree.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..c41f9f1 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -159,6 +159,18 @@ class MainTree(object):
             print("Error: Node '%s' already exists" % node_id)
             return False
 
+        # Refuse a circular parent before anything is changed
+        if parent_id is not None:
+            pending = self.pending_relationships + node.pending_relationships
+            children = [c for p, c in pending
+                        if p == node_id and c in self.nodes]
+            if parent_id == node_id or any(
+                    self._is_circular_relation(parent_id, child_id)
+                    for child_id in children):
+                raise Exception(
+                    'Creating circular relationship between {} and {}'.format(
+                        parent_id, node_id))
+
         _Node._set_tree(node, self)
         for relationship in node.pending_relationships:
             if relationship not in self.pending_relationships:
@@ -197,10 +209,6 @@ class MainTree(object):
 
         # Build relationship with given parent
         if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
             if parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
-- 
2.43.0


From d2f99147114e684bb40d6062a19459c795b7e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 04/39] fix: adding a node ignored disabled parents and
 children

A node put under a parent with children disabled (or a node with parents
disabled put under any parent, directly or by a late relationship) was
recorded as its child, but neither reported as a child nor attached to the
root: it could not be reached from the root of the tree any more.
---
 liblarch/tree.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index c41f9f1..efd84a4 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -148,6 +148,10 @@ class MainTree(object):
 
         return False
 
+    def _is_allowed_relation(self, parent, child):
+        """ Do both nodes accept such a relation? """
+        return parent.has_children_enabled() and child.has_parents_enabled()
+
     def _add_node(self, node, parent_id):
         """ Add a node to the tree
 
@@ -163,7 +167,8 @@ class MainTree(object):
         if parent_id is not None:
             pending = self.pending_relationships + node.pending_relationships
             children = [c for p, c in pending
-                        if p == node_id and c in self.nodes]
+                        if p == node_id and c in self.nodes and
+                        self._is_allowed_relation(node, self.nodes[c])]
             if parent_id == node_id or any(
                     self._is_circular_relation(parent_id, child_id)
                     for child_id in children):
@@ -187,7 +192,10 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._is_allowed_relation(
+                        self.nodes[rel_parent_id], node):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -199,7 +207,10 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._is_allowed_relation(
+                        node, self.nodes[rel_child_id]):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -210,8 +221,9 @@ class MainTree(object):
         # Build relationship with given parent
         if parent_id is not None:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
+                if self._is_allowed_relation(self.nodes[parent_id], node):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
                 parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
-- 
2.43.0


From ba42125f0d70255c9421eb27154667145a2fa5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 05/39] fix: a node named like an event broke every view

The callbacks of events and the actions waiting for a node shared one
dictionary, so showing a node with the id 'added', 'deleted', 'modified' or
'reordered' raised a TypeError, and waiting for such a node dropped the
callback of the event.
---
 liblarch/filteredtree.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..8d4a863 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,9 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Actions waiting for a node, kept apart from the callbacks of events:
+        # a node can have the same id as an event
+        self.runonce_cllbcks = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +93,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce_cllbcks:
+                    self.runonce_cllbcks[node_id] = []
+                self.runonce_cllbcks[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +112,11 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce_cllbcks.get(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
+                    if node_id in self.runonce_cllbcks:
+                        self.runonce_cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From eb20f6a21672846ba9fe4a70494fec413b9124b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 06/39] fix: an action queued for a displayed node could run
 for ever

GLib keeps calling an idle function which returns a true value, so an action
with such a return value was not run once but on every idle.
---
 liblarch/filteredtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 8d4a863..59fdc13 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -91,7 +91,10 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                def run_once():
+                    func(param)
+                    return False
+                GObject.idle_add(run_once)
             else:
                 if node_id not in self.runonce_cllbcks:
                     self.runonce_cllbcks[node_id] = []
-- 
2.43.0


From 777b14f7a1833cddf1ac29163c88578d2fa17373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 07/39] fix: hiding several related nodes at once crashed a
 view

While a node was being hidden, its children and parents were updated with the
node only partly taken out.  If one of them was to be hidden too, the update
came back to the same node and failed with a KeyError or a ValueError.
---
 liblarch/filteredtree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 59fdc13..752654c 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -237,20 +237,24 @@ class FilteredTree(object):
                         self.__update_node(cid, direction="down")
 
         elif action == 'deleted':
+            # Detach the node from its neighbours before any of them is
+            # updated: such an update might come back to this node
             paths = self.get_paths_for_node(node_id)
             children = list(reversed(self.nodes[node_id]['children']))
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
-                self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
 
             node = self.nodes.pop(node_id)
+            for child_id in children:
+                self.nodes[child_id]['parents'].remove(node_id)
+            for parent_id in node['parents']:
+                self.nodes[parent_id]['children'].remove(node_id)
             for path in paths:
                 self.callback(action, node_id, path)
 
-            # Remove node from cache
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
             for parent_id in node['parents']:
-                self.nodes[parent_id]['children'].remove(node_id)
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From 3da79d9563d537fe125f4e42997a8afd1a05875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 08/39] fix: a view asked for its paths in the middle of an
 update

The new parents of a node were recorded before they knew about their new
child.  Until then get_paths_for_node() raised "X is not children of Y", in
callbacks as well as in the view itself when updating a parent came back to the
node.
---
 liblarch/filteredtree.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 752654c..f370c14 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -190,37 +190,34 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
-            stay = set(new_parents) - set(add_to)
 
             # If we are updating a node at the root, we should take care
             # of the root too
             if direction == "down" and self.root_id in add_to:
                 direction = "both"
 
+            # Both ends of every relationship are kept in step: callbacks ask
+            # for paths, and an update of a parent might come back to this
+            # node. Therefore parents are updated only afterwards.
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
+                self.nodes[node_id]['parents'].remove(parent_id)
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
+                    self.nodes[node_id]['parents'].append(parent_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
-            # We update all the other parents
+            self.nodes[node_id]['parents'] = new_parents
+            # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in stay:
+                for parent_id in list(remove_from) + new_parents:
                     self.__update_node(parent_id, direction="up")
             # We update the node itself
             # Why should we call the callback only for modify?
-- 
2.43.0


From ee41502b058abeef47a91247bcdb2205027e35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 09/39] fix: filters which look at children left stale nodes in
 views

A change of a displayed node was not propagated to its hidden parents, nor, in
a flat view, to its parents when it got hidden, so a filter depending on the
children of a node was not evaluated again.  A parent which got displayed that
way did not take over its children.
---
 liblarch/filteredtree.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index f370c14..0c10fd2 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -180,7 +180,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            if action == 'added' or direction == "both" or direction == "up":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
@@ -228,7 +228,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if action == 'added' or direction == "both" or direction == "down":
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
@@ -254,12 +254,11 @@ class FilteredTree(object):
             for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
-            # We update parents who are not displayed
+            # We update parents which do not display the node
             # If the node is only hidden and still exists in the tree
             if self.tree.has_node(node_id):
-                node = self.tree.get_node(node_id)
-                for parent in node.get_parents():
-                    if parent not in self.nodes:
+                for parent in self.tree.get_node(node_id).get_parents():
+                    if parent not in node['parents']:
                         self.__update_node(parent, direction="up")
 
         return completely_updated
-- 
2.43.0


From 854972a820511d3f2193ec64df24b635d3978b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 10/39] fix: a late relationship declared by a thread could get
 lost

A relationship to a node which is not in the tree yet was written directly into
the list of pending relationships.  When another thread added the node between
the check and the write, nobody completed the relationship any more.  Use a
request like for every other relationship.  Moving a node to the root also does
not leave a (None, node) entry behind every time now.
---
 liblarch/treenode.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 23543ef..6d92e23 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -80,8 +80,7 @@ class _Node(object):
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -95,8 +94,7 @@ class _Node(object):
             elif not self.tree.has_node(parent_id):
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -157,8 +155,7 @@ class _Node(object):
                     self.pending_relationships.append(
                         (self.get_id(), child_id))
                 elif not self.tree.has_node(child_id):
-                    self.tree.pending_relationships.append(
-                        (self.get_id(), child_id))
+                    self.tree.new_relationship(self.get_id(), child_id)
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-- 
2.43.0


From c4209c2d8006dfba3492456d149c0e492b5740b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 11/39] fix: a failing request of a thread blocked all
 following requests

An exception raised by a request (e.g. a refused circular relationship) made
GLib drop the idle handler while the queue still believed it was installed.
Requests of other threads were then never processed.
---
 liblarch/processqueue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..ff70d34 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,11 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # A refused request must not stop the following ones
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From a1e0065928959bf24bf461447692604c9a3f8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 12/39] fix: unregistering a callback of a ViewCount raised
 AttributeError

---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From 5472a08a1e99eb66a64f73ae7e1339d022df7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 13/39] fix: the first level of a filtered view could not be
 asked for its nth node

node_nth_child(None, n) and node_has_child(None) raised a KeyError in a filtered
view, unlike the other queries and unlike the main view.
---
 liblarch/filteredtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 0c10fd2..6bb9739 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -557,6 +557,8 @@ class FilteredTree(object):
         return list(self.nodes[node_id]['children'])
 
     def node_has_child(self, node_id):
+        if node_id is None:
+            node_id = self.root_id
         return len(self.nodes[node_id]['children']) > 0
 
     def node_n_children(self, node_id, recursive=False):
@@ -577,6 +579,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 16c4057607b6a8e001f8ac79526e516a15ee8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 14/39] fix: looking up a path of an unknown node raised
 ValueError

get_node_for_path() promises None for a path which is not valid.
---
 liblarch/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index efd84a4..d35884c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -355,6 +355,8 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
+        if node_id not in self.nodes:
+            return None
         if path in self.get_paths_for_node(node_id):
             return node_id
         else:
-- 
2.43.0


From 672cf5cd364331f0bcac8c80fa5b1018b346a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:59 +0000
Subject: [PATCH 15/39] fix: a refused late child stayed in the children of its
 parent

add_child() recorded the child before the tree accepted the relationship.  When
the parent was not in the tree at that time (a removed node to be added again)
and the relationship turned out to be circular later, only one of the two
nodes knew about it.
---
 liblarch/tree.py     | 5 +++--
 liblarch/treenode.py | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index d35884c..b4f66ee 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -327,8 +327,9 @@ class MainTree(object):
         self._destroy_relationship(parent_id, child_id)
 
         # Move to root if beak the last parent
-        if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+        if (self.nodes[child_id].get_parents() == [] and
+                child_id not in self.root.children):
+            self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 6d92e23..ea09604 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -159,7 +159,6 @@ class _Node(object):
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-                        self.children.append(child_id)
                         self.tree.new_relationship(self.node_id, child_id)
             else:
                 print("{} was already in children of {}".format(
-- 
2.43.0


From 3285a7e2fd0944ff4bb37926c66f25263c5441a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 16/39] fix: a removed row was looked up again in the cache of
 the GTK model

The iterator of a removed row stayed in cache_paths.  As GTK reuses the memory
of rows, it could become valid again and point to the same node below another
parent, so that rows were added, updated or removed at a wrong place.
---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..779baf7 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # GTK might reuse the removed row for another one
+        self.cache_paths.pop(path, None)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From a8ac812cad7c2408dff17206cd7eb48f4fc28f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 17/39] fix: showing a TreeView again doubled all its rows

TreeView.show() connects the model to liblarch.  Calling it again (e.g. after
hide()) registered the callbacks once more and asked for all nodes again.
---
 liblarch_gtk/treemodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 779baf7..7f2c361 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -37,6 +37,7 @@ class TreeModel(Gtk.TreeStore):
         self.cache_paths = {}
         self.cache_position = {}
         self.tree = tree
+        self.connected = False
 
     def set_column_function(self, column_num, column_func):
         """ Replace function for generating certain column.
@@ -56,6 +57,10 @@ class TreeModel(Gtk.TreeStore):
         Also asks for the current status by providing add_task callback.
         We are able to connect to liblarch tree on the fly. """
 
+        if self.connected:
+            return
+        self.connected = True
+
         self.tree.register_cllbck('node-added-inview', self.add_task)
         self.tree.register_cllbck('node-deleted-inview', self.remove_task)
         self.tree.register_cllbck('node-modified-inview', self.update_task)
-- 
2.43.0


From 1a4da507b1b3f6f09089939ab5eb214405f0f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:43 +0000
Subject: [PATCH 18/39] fix: a ViewCount crashed on removed filters and on
 truth values

After an applied filter had been removed from the bank, every change of the
tree raised an AttributeError in the ViewCount (a view shows no node then).
A filter returning something else than a bool, which is fine for a view, raised
a TypeError.
---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..61d618d 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,8 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            if not filt or not filt.is_displayed(nid):
+                displayed = False
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 04d9ebd86a4ae9bc4e7d1fb6fed148c851d57b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:54 +0000
Subject: [PATCH 19/39] fix: a TreeView made for a filled view started with
 folded rows

The rows were unfolded before there were any.
---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..2ce8017 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -192,8 +192,8 @@ class TreeView(Gtk.TreeView):
 
         self.set_model(self.treemodel)
 
-        self.expand_all()
         self.show()
+        self.expand_all()
 
         self.collapsed_paths = []
         self.connect('row-expanded', self.__emit, 'expanded')
-- 
2.43.0


From 1f67fec9a68bc7caff59d098e89d2a3df7934a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 20/39] fix: changes of a node's relations by threads were half
 made at once

---
 liblarch/tree.py     |  4 ++++
 liblarch/treenode.py | 28 ++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index b4f66ee..0af3423 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -94,6 +94,10 @@ class MainTree(object):
     def break_relationship(self, parent_id, child_id):
         self._queue.push(self._break_relationship, parent_id, child_id)
 
+    def change_node(self, func, *args):
+        """ Change relationships of a node, used by TreeNode """
+        self._queue.push(func, *args)
+
     def refresh_all(self):
         """ Refresh all nodes """
         for node_id in list(self.nodes.keys()):
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index ea09604..aeaba82 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -62,8 +62,21 @@ class _Node(object):
         """ Return associated tree with this node """
         return self.tree
 
+    def _request(self, func, *args):
+        """ Carry out a change of relationships as one request to the tree
+
+        Requests of other threads are carried out later: nothing can be
+        decided or changed before. """
+        if self.tree:
+            self.tree.change_node(func, *args)
+        else:
+            func(*args)
+
     # Parents #################################################################
     def set_parents_enabled(self, bol):
+        self._request(self._set_parents_enabled, bol)
+
+    def _set_parents_enabled(self, bol):
         if not bol:
             for p in self.get_parents():
                 self.remove_parent(p)
@@ -74,6 +87,9 @@ class _Node(object):
 
     def add_parent(self, parent_id):
         """ Add a new parent """
+        self._request(self._add_parent, parent_id)
+
+    def _add_parent(self, parent_id):
         if (parent_id != self.get_id() and
                 self.parents_enabled and
                 parent_id not in self.parents):
@@ -88,6 +104,9 @@ class _Node(object):
 
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
+        self._request(self._set_parent, parent_id)
+
+    def _set_parent(self, parent_id):
         if parent_id != self.get_id() and self.parents_enabled:
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
@@ -107,6 +126,9 @@ class _Node(object):
 
     def remove_parent(self, parent_id):
         """ Remove parent """
+        self._request(self._remove_parent, parent_id)
+
+    def _remove_parent(self, parent_id):
         if self.parents_enabled and parent_id in self.parents:
             self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
@@ -139,6 +161,9 @@ class _Node(object):
 
     # Children ################################################################
     def set_children_enabled(self, bol):
+        self._request(self._set_children_enabled, bol)
+
+    def _set_children_enabled(self, bol):
         if not bol:
             for c in self.get_children():
                 self.tree.break_relationship(self.get_id(), c)
@@ -149,6 +174,9 @@ class _Node(object):
 
     def add_child(self, child_id):
         """ Add a children to node """
+        self._request(self._add_child, child_id)
+
+    def _add_child(self, child_id):
         if self.children_enabled and child_id != self.get_id():
             if child_id not in self.children:
                 if not self.tree:
-- 
2.43.0


From 50b120c406a0bbce129158f26618aa09a496c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:14 +0000
Subject: [PATCH 21/39] fix: a ViewCount without filters counted unknown nodes

---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 61d618d..f6ae505 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -80,7 +80,8 @@ class ViewCount(object):
         self.__modify(nid)
 
     def __modify(self, nid):
-        displayed = True
+        # Nodes which are not in the tree are never counted
+        displayed = self.tree.has_node(nid)
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
             if not filt or not filt.is_displayed(nid):
-- 
2.43.0


From 2f40620fda7163fdbf0d09041431d54b89d2b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:14 +0000
Subject: [PATCH 22/39] fix: a ViewCount callback unregistering itself silenced
 the next one

---
 liblarch/viewcount.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index f6ae505..d927808 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -102,5 +102,7 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
-            c()
+        # A callback can register or unregister callbacks
+        for c in list(self.cllbcks):
+            if c in self.cllbcks:
+                c()
-- 
2.43.0


From 500bc53d91fb0c3855a08e85e185fbd076e1cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:11 +0000
Subject: [PATCH 23/39] fix: the first column of a TreeView was missing without
 new_column

---
 liblarch_gtk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 2ce8017..1f73cce 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -142,7 +142,8 @@ class TreeView(Gtk.TreeView):
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-                newcol = False
+                # There is no previous column for the first one
+                newcol = col_num == 1
             col.set_visible(visible)
 
             if 'title' in desc:
-- 
2.43.0


From 149727bcd3f5dba4ae548004c7d2cd0aee392d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:11 +0000
Subject: [PATCH 24/39] fix: dropping an empty selection of another widget
 raised

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 1f73cce..9693ea3 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -511,7 +511,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From f5a5f07dd390af457dd50f6262e7455fee2021fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:45 +0000
Subject: [PATCH 25/39] fix: looking for circles visited ancestors once per
 path

---
 liblarch/tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 0af3423..b0cff7c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -148,6 +148,7 @@ class MainTree(object):
 
             for ancestor_id in self.nodes[node_id].parents:
                 if ancestor_id not in visited:
+                    visited.append(ancestor_id)
                     ancestors.append(ancestor_id)
 
         return False
-- 
2.43.0


From eab8b4d402e372f63a5959de37f2878123e2d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:45 +0000
Subject: [PATCH 26/39] fix: the separator function was asked about removed
 nodes

---
 liblarch_gtk/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 9693ea3..f43dadc 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -554,6 +554,9 @@ class TreeView(Gtk.TreeView):
         """ Call user function to determine if this node is separator """
         if itera and model.iter_is_valid(itera):
             node_id = model.get_value(itera, 0)
+            # The node of a row which is to be removed might be gone already
+            if not self.basetree.get_basetree().has_node(node_id):
+                return False
             node = self.basetree.get_node(node_id)
             if self.separator_func:
                 return self.separator_func(node)
-- 
2.43.0


From 776d093a5fc851d0d1ac8b3c87d170859d25919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 27/39] fix: hidden nodes made updates of views take
 exponential time

---
 liblarch/filteredtree.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 6bb9739..9d73525 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -64,6 +64,8 @@ class FilteredTree(object):
         self.nodes[self.root_id] = {'parents': [], 'children': []}
         self.cache_paths = {}
         self.filter_cache = {}
+        # Hidden nodes the current update went through
+        self.passed = set()
 
         # Connect to signals from MainTree
         self.tree = tree
@@ -133,7 +135,12 @@ class FilteredTree(object):
 
     # EXTERNAL MODIFICATION ###################################################
     def __external_modify(self, node_id):
-        return self.__update_node(node_id, direction="both")
+        # A callback might change the tree in the middle of an update
+        passed, self.passed = self.passed, set()
+        try:
+            return self.__update_node(node_id, direction="both")
+        finally:
+            self.passed = passed
 
     def __update_node(self, node_id, direction):
         '''update the node node_id and propagate the
@@ -156,8 +163,9 @@ class FilteredTree(object):
         if not current_display and not new_display:
             # If a task is not displayed and should not be displayed, we
             # should still check its parent because he might not be aware
-            # that he has a child
-            if self.tree.has_node(node_id):
+            # that he has a child. Once is enough, there might be many ways up
+            if self.tree.has_node(node_id) and node_id not in self.passed:
+                self.passed.add(node_id)
                 node = self.tree.get_node(node_id)
                 for parent in node.get_parents():
                     self.__update_node(parent, "up")
@@ -331,11 +339,16 @@ class FilteredTree(object):
         # Build tree again
         root_node = self.tree.get_root()
         queue = root_node.get_children()
+        seen = set()
 
         while queue:
             node_id = queue.pop(0)
+            # A node with several parents is there several times
+            if node_id in seen:
+                continue
+            seen.add(node_id)
             # FIXME: decide which is the best direction
-            self.__update_node(node_id, direction="both")
+            self.__external_modify(node_id)
             queue.extend(self.tree.get_node(node_id).get_children())
 
     def __is_displayed(self, node_id):
-- 
2.43.0


From c42a13d18df380dd797f251e74f8c68b912ea5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 28/39] fix: flat views updated ancestors once per path

---
 liblarch/filteredtree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 9d73525..630615b 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -64,7 +64,8 @@ class FilteredTree(object):
         self.nodes[self.root_id] = {'parents': [], 'children': []}
         self.cache_paths = {}
         self.filter_cache = {}
-        # Hidden nodes the current update went through
+        # Nodes the current update went through on its way up, apart from the
+        # displayed parents of displayed nodes
         self.passed = set()
 
         # Connect to signals from MainTree
@@ -191,7 +192,10 @@ class FilteredTree(object):
             if action == 'added' or direction == "both" or direction == "up":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
-                    if (parent_id not in new_parents and parent_id not in current_parents):
+                    if (parent_id not in new_parents and parent_id not in current_parents
+                            and parent_id not in self.passed):
+                        if self.is_displayed(parent_id):
+                            self.passed.add(parent_id)
                         self.__update_node(parent_id, direction="up")
 
             # Refresh list of parents after doing checkup once again
-- 
2.43.0


From c4b36a73b7303b4e286086b2065c7ca770afbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:26 +0000
Subject: [PATCH 29/39] fix: views remembered the paths of every node ever
 asked for

Nothing read the cache, and entries of deleted nodes stayed for ever.
---
 liblarch/filteredtree.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 630615b..8024d3d 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -62,7 +62,6 @@ class FilteredTree(object):
             self.root_id = "root_%s" % name
 
         self.nodes[self.root_id] = {'parents': [], 'children': []}
-        self.cache_paths = {}
         self.filter_cache = {}
         # Nodes the current update went through on its way up, apart from the
         # displayed parents of displayed nodes
@@ -458,7 +457,6 @@ class FilteredTree(object):
                 for parent_path in self.get_paths_for_node(parent_id):
                     mypath = parent_path + (node_id, )
                     toreturn.append(mypath)
-            self.cache_paths[node_id] = toreturn
             return toreturn
 
     def print_tree(self, string=False):
-- 
2.43.0


From 68b7991b3d34e748d7ff2db992090ad410444340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:11 +0000
Subject: [PATCH 30/39] fix: a node added again by an observer of its removal
 was not counted

The counter took a removed node out without looking whether it is in the
tree again by then.
---
 liblarch/viewcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index d927808..6fe77c0 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -25,7 +25,7 @@ class ViewCount(object):
         self.tree = tree
         self.tree.register_callback("node-added", self.__modify)
         self.tree.register_callback("node-modified", self.__modify)
-        self.tree.register_callback("node-deleted", self.__delete)
+        self.tree.register_callback("node-deleted", self.__modify)
 
         self.fbank = fbank
         self.name = name
-- 
2.43.0


From f751d0477baee86611edf122c06533f518f18f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 31/39] fix: a node once expanded was kept folded from then on

expand_node() put the node into the collapsed ones, whose rows do not unfold
by themselves when children appear.
---
 liblarch_gtk/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index f43dadc..6545d6a 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -264,7 +264,12 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method == self.expand_one_row:
+                    # Nothing keeps the node folded any more
+                    self.collapsed_paths = [
+                        p for p in self.collapsed_paths if p[-1] != node_id]
+                else:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 6f21b05b29a5c02bbf32043dd35dbe62483211b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 32/39] fix: models made from the same column descriptions
 shared them

set_column_function() of one model replaced the function in the list given
by the caller, and so in every other model made from that list. It raised
when the description was a tuple.
---
 liblarch_gtk/treemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 7f2c361..eb2f4ad 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -30,7 +30,9 @@ class TreeModel(Gtk.TreeStore):
         self.count = 0
         self.count2 = 0
 
-        self.types = [[str, lambda node: node.get_id()]] + types
+        self.types = [[str, lambda node: node.get_id()]]
+        # Copies: set_column_function() must not change the lists of others
+        self.types += [list(column_type) for column_type in types]
         only_types = [python_type for python_type, access_method in self.types]
 
         super(TreeModel, self).__init__(*only_types)
-- 
2.43.0


From 97ed2d9e1d344b09ff74ea11bd16f8e95469e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 33/39] fix: a refused apply_filter with reset lost the applied
 filters

Parameters for an unknown filter raise ValueError, after the list of applied
filters had been emptied: the view showed the old content until nodes changed.
---
 liblarch/filteredtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 8024d3d..678f114 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -631,9 +631,6 @@ class FilteredTree(object):
                 (performance optimization)
         """
         should_refilter = False
-        if reset:
-            self.applied_filters = []
-
         if parameters:
             filt = self.fbank.get_filter(filter_name)
             if filt:
@@ -643,6 +640,9 @@ class FilteredTree(object):
                 raise ValueError(
                     "No filter of name {} in the bank".format(filter_name))
 
+        if reset:
+            self.applied_filters = []
+
         if filter_name not in self.applied_filters:
             self.applied_filters.append(filter_name)
             should_refilter = True
-- 
2.43.0


From bd3f26d5aaaebd622c0fe275b339f3d050030f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 34/39] fix: counting with a filter that is not in the bank
 ignored that filter

Applying such a filter shows nothing, get_nodes(withfilters) promises the
nodes which would be displayed if the filters were applied.
---
 liblarch/filteredtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 678f114..b3550cf 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -517,8 +517,10 @@ class FilteredTree(object):
             filters = []
             for filter_name in withfilters:
                 filt = self.fbank.get_filter(filter_name)
-                if filt:
-                    filters.append(filt)
+                if not filt:
+                    # Nothing passes a filter that is not in the bank
+                    return []
+                filters.append(filt)
 
             nodes = []
             for node_id in self.nodes:
-- 
2.43.0


From 1651fcd653ed38a4b5e59b0f6423c56b233c04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 35/39] fix: a column could not be sorted by one that comes
 later

TreeView raised KeyError for such a description.
---
 liblarch_gtk/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 6545d6a..5ae421a 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -116,6 +116,7 @@ class TreeView(Gtk.TreeView):
             self.order_of_column.append((order, col_name))
 
         types = []
+        sorting = []
         sorting_func = []
         # Build the first column if user starts with new_colum=False
         col = Gtk.TreeViewColumn()
@@ -164,14 +165,18 @@ class TreeView(Gtk.TreeView):
             if ENABLE_SORTING:
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
-                    self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    sorting.append((col, desc['sorting']))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        # A column might be sorted by one that comes later
+        for col, sort_col_name in sorting:
+            self.sort_col = sort_col_name
+            sort_num, sort_col = self.columns[self.sort_col]
+            col.set_sort_column_id(sort_num)
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From e26d24d2cba95352e22d6c467a6e2a5165931375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 36/39] fix: a former parent in a view is updated even if
 checking the others detached it

While a node is updated on the way up, checking a parent that is not yet
displayed can detach the node from a parent that is to be hidden. That
parent was then never updated and stayed in the view.
---
 liblarch/filteredtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index b3550cf..150751b 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -185,6 +185,7 @@ class FilteredTree(object):
         if action == 'added' or action == 'modified':
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
+            old_parents = list(current_parents)
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
@@ -226,7 +227,9 @@ class FilteredTree(object):
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
             self.nodes[node_id]['parents'] = new_parents
-            # We update all the parents
+            # We update all the parents, the former ones might have been taken
+            # away while checking the others
+            remove_from.update(set(old_parents) - set(new_parents))
             if direction == "both" or direction == "up":
                 for parent_id in list(remove_from) + new_parents:
                     self.__update_node(parent_id, direction="up")
-- 
2.43.0


From de7cd9116bdf05d3eebcb02170a6d9fb46db4e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:52 +0000
Subject: [PATCH 37/39] fix: the rows of a changed node are updated before
 others come next to them

A sorted model places a new row by comparing it with its siblings. When the
change of a node made an ancestor of it appear next to it, the comparison
still met the row of the changed node at its old place.
---
 liblarch/filteredtree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 150751b..6e76d23 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -181,6 +181,12 @@ class FilteredTree(object):
         if action == 'added':
             self.nodes[node_id] = {'parents': [], 'children': []}
 
+        # The rows of a changed node are updated before others come next to
+        # them: observers which sort rows compare them with the changed node
+        if action == 'modified' and direction == "both":
+            for path in self.get_paths_for_node(node_id):
+                self.callback(action, node_id, path)
+
         # Make sure parents are okay if we adding or updating
         if action == 'added' or action == 'modified':
             current_parents = self.nodes[node_id]['parents']
-- 
2.43.0


From f29cdbc5c09d7f9d524b9cf131c069dac29eeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 38/39] fix: a node removed while another thread asks for a new
 parent of it

Tree.add_parent() and Tree.move_node() raised KeyError in the thread if the
owner of the tree removed the node between has_node() and get_node().
---
 liblarch/__init__.py | 12 ++++++++++--
 liblarch/tree.py     |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/liblarch/__init__.py b/liblarch/__init__.py
index 8dbf568..bdf10ef 100644
--- a/liblarch/__init__.py
+++ b/liblarch/__init__.py
@@ -94,7 +94,11 @@ class Tree(object):
         """ Move the node to a new parent (dismissing all other parents)
         use pid None to move it to the root """
         if self.has_node(node_id):
-            node = self.get_node(node_id)
+            try:
+                node = self.get_node(node_id)
+            except ValueError:
+                # The owner of the tree removed it in the meantime
+                return False
             node.set_parent(new_parent_id)
             toreturn = True
         else:
@@ -107,7 +111,11 @@ class Tree(object):
         successful or not. If the node does not exists, return False """
 
         if self.has_node(node_id):
-            node = self.get_node(node_id)
+            try:
+                node = self.get_node(node_id)
+            except ValueError:
+                # The owner of the tree removed it in the meantime
+                return False
             return node.add_parent(new_parent_id)
         else:
             return False
diff --git a/liblarch/tree.py b/liblarch/tree.py
index b0cff7c..a2c75d9 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -346,9 +346,13 @@ class MainTree(object):
 
     def get_node(self, node_id=None):
         """ Return node of tree or root node of this tree """
-        if node_id in self.nodes:
+        try:
+            # Other threads ask as well, the node might be removed meanwhile
             return self.nodes[node_id]
-        elif node_id == self.root_id or node_id is None:
+        except KeyError:
+            pass
+
+        if node_id == self.root_id or node_id is None:
             return self.root
         else:
             raise ValueError("Node %s is not in the tree" % node_id)
-- 
2.43.0


From c84e82c6930ccfc1014a5e87c229781ed47a7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 39/39] fix: a changed row is reported once, before the rows
 next to it

The former commit reported rows of a refreshed node twice; observers that
count notifications would see the difference.
---
 liblarch/filteredtree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 6e76d23..0fc0589 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -183,7 +183,8 @@ class FilteredTree(object):
 
         # The rows of a changed node are updated before others come next to
         # them: observers which sort rows compare them with the changed node
-        if action == 'modified' and direction == "both":
+        # Why should we call the callback only for modify?
+        if action == 'modified':
             for path in self.get_paths_for_node(node_id):
                 self.callback(action, node_id, path)
 
@@ -239,12 +240,6 @@ class FilteredTree(object):
             if direction == "both" or direction == "up":
                 for parent_id in list(remove_from) + new_parents:
                     self.__update_node(parent_id, direction="up")
-            # We update the node itself
-            # Why should we call the callback only for modify?
-            if action == 'modified':
-                for path in self.get_paths_for_node(node_id):
-                    self.callback(action, node_id, path)
-
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-- 
2.43.0

