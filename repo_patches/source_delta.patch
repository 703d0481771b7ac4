From 0cff8f6e606a2ae0005439bbff12a088a8117c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 01/63] fix: removing interval edges and nodes left stale
 nodes, pairs and index entries

remove_node without bounds left its edges in the interval index, remove_node
with bounds mutated the index while iterating over it, both left empty pair
entries behind (has_edge kept answering True), and remove_edge raised KeyError
for a self-loop and dropped a node's adjacency while keeping the node.
---
 dynetworkx/classes/intervalgraph.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..ad4696c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -610,13 +610,11 @@ class IntervalGraph(object):
             return
 
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
+            for iedge in self.edges(u=[n]):
+                self.__remove_iedge(iedge)
 
         else:
-            iedges = self.tree[begin:end]
+            iedges = list(self.tree[begin:end])
             for iedge in iedges:
                 if iedge[0] == n or iedge[1] == n:
                     self.__remove_iedge(iedge)
@@ -1087,16 +1085,6 @@ class IntervalGraph(object):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -1197,6 +1185,11 @@ class IntervalGraph(object):
         self._adj[iedge[0]][iedge[1]].pop(iedge, None)
         self._adj[iedge[1]][iedge[0]].pop(iedge, None)
 
+        # clean up empty dictionaries
+        if len(self._adj[iedge[0]][iedge[1]]) == 0:
+            self._adj[iedge[0]].pop(iedge[1], None)
+            self._adj[iedge[1]].pop(iedge[0], None)
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
-- 
2.43.0


From 6d9eca21449152bde010df952905ec91dc598976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 02/63] fix: interval index lost edges and bounds on deletion

Deleting an interval with two subtrees dropped the right subtree, a deleted
root stayed in place, a deleted interval could not be added again, and the
bounds were not recomputed correctly.
---
 dynetworkx/classes/intervaltree.py | 42 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..d135461 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,16 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
-                return root.right
-            return None
+            if not root.left or not root.right:
+                return root.left or root.right
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # both subtrees exist, the in-order successor takes the place of the removed node
+            successor = next(self.inOrder(root.right))
+            successor.right = self.discard(root.right, successor)
+            successor.left = root.left
+            root = successor
+
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -92,12 +95,12 @@ class IntervalTree:
         balance = self.getBalance(root)
 
         if balance > 1:
-            if root.left.right == node:
+            if self.getBalance(root.left) < 0:
                 root.left = self.leftRotate(root.left)
             return self.rightRotate(root)
 
         elif balance < -1:
-            if root.right.left == node:
+            if self.getBalance(root.right) > 0:
                 root.right = self.rightRotate(root.right)
             return self.leftRotate(root)
 
@@ -189,24 +192,21 @@ class IntervalTree:
         start = edge[2]
         end = edge[3]
 
-        node = self.nodes[(start, end)]
-        if edge not in node.edges:
+        node = self.nodes.get((start, end))
+        if node is None or edge not in node.edges:
             return
 
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
-        if self.begin == start:
-            traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
-                traversal_node = traversal_node.left
-        if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.root = self.discard(self.root, node)
+            del self.nodes[(start, end)]
+        if self.root is None:
+            self.begin = float("inf")
+            self.end = float("-inf")
+        else:
+            self.begin = next(self.inOrder(self.root)).low
+            self.end = self.root.max
 
         return
 
-- 
2.43.0


From 65b96475a15cdeb070255f0b863df5159f95c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:22 +0000
Subject: [PATCH 03/63] fix: interval index treated a bound of zero or an
 omitted bound wrongly

A begin or end of 0 was taken as omitted, and an omitted bound was replaced by
the bound of the graph, which let an exclusive end equal to the beginning of
the graph match edges and missed zero-length edges at the end.
---
 dynetworkx/classes/intervaltree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index d135461..3d3c49a 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -13,6 +13,11 @@ class Node:
         self.height = 0
 
     def inInterval(self, begin, end):
+        # begin or end being None means unbounded
+        if begin is None:
+            return end is None or self.low < end
+        if end is None:
+            return self.high > begin or self.low == begin
         return (self.low < end and self.high > begin) or self.low == begin
 
 class IntervalTree:
@@ -152,13 +157,13 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and node.left.max >= begin:
+        if node.left and (begin is None or node.left.max >= begin):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and node.low <= end and node.right.max >= begin:
+        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def add(self, edge):
@@ -215,10 +220,6 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From a7dbafba8aec49b696f85d7ffd40dc49397bac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 04/63] fix: unique timestamps missed events on the window
 boundary

An edge merely touching the window was skipped although its timestamp is
inside, bounds of 0 were ignored and an empty graph raised an error.
---
 dynetworkx/classes/intervaltree.py | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 3d3c49a..3de2a0e 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -156,15 +156,16 @@ class IntervalTree:
             return 0
         return self.getHeight(node.left) - self.getHeight(node.right)
 
-    def query(self, node, begin, end):
+    def query(self, node, begin, end, closed=False):
+        # if closed, nodes which only touch begin or end are included as well
         if node.left and (begin is None or node.left.max >= begin):
-            yield from self.query(node.left, begin, end)
+            yield from self.query(node.left, begin, end, closed)
 
-        if node.inInterval(begin, end):
+        if node.inInterval(begin, end) or (closed and node.low <= end and node.high >= begin):
             yield node
 
         if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
-            yield from self.query(node.right, begin, end)
+            yield from self.query(node.right, begin, end, closed)
 
     def add(self, edge):
         # edge = (u, v, begin, end)
@@ -227,9 +228,11 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if self.root is None:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -241,7 +244,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, True):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -252,9 +255,11 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if self.root is None:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -266,7 +271,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, True):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -275,9 +280,11 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if self.root is None:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -289,7 +296,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, True):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From 6f61471393e122e2547e1729f5925cd4fddf4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 05/63] fix: interval graphs failed for orderable times other
 than numbers

---
 dynetworkx/classes/intervaltree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 3de2a0e..c65ffcc 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -182,10 +182,11 @@ class IntervalTree:
         node.edges.append(edge)
         self.nodes[(start, end)] = node
 
+        # the bounds of an empty tree cannot be compared with times other than numbers
+        self.begin = min(self.begin, start) if self.root else start
+        self.end = max(self.end, end) if self.root else end
         self.root = self.insert(self.root, node)
         self.number_of_edges += 1
-        self.begin = min(self.begin, start)
-        self.end = max(self.end, end)
         return
 
     def add_from(self, edges):
-- 
2.43.0


From eab7b1728e863edf8fa0789c59a28b03658b9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 06/63] fix: interval graphs accepted edges which end before
 they begin

---
 dynetworkx/classes/intervaldigraph.py | 3 +++
 dynetworkx/classes/intervalgraph.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..a3aa684 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -131,6 +131,9 @@ class IntervalDiGraph(IntervalGraph):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if begin > end:
+            raise NetworkXError("IntervalDiGraph: edge end must not be smaller than begin {0}.".format((u, v, begin, end)))
+
         # if edge exists, just update attr
         if u in self._pred and v in self._succ and v in self._pred[u] and u in self._succ[v] and (u, v, begin, end) in self._pred[u][v] and (u, v, begin, end) in self._succ[v][u]:
             self._pred[u][v][(u, v, begin, end)].update(attr)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ad4696c..366b82c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -677,6 +677,9 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
 
+        if begin > end:
+            raise NetworkXError("IntervalGraph: edge end must not be smaller than begin {0}.".format((u, v, begin, end)))
+
         if u in self._adj and v in self._adj[u] and (u, v, begin, end) in self._adj[u][v]:
             self._adj[u][v][(u, v, begin, end)].update(attr)
             self._adj[v][u][(u, v, begin, end)].update(attr)
-- 
2.43.0


From b85d02351a6136f142a6f27c67fa29b14c56f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:10 +0000
Subject: [PATCH 07/63] fix: undirected interval graphs stored (v, u) as a
 second edge besides (u, v)

---
 dynetworkx/classes/intervalgraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 366b82c..229766a 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -685,6 +685,11 @@ class IntervalGraph(object):
             self._adj[v][u][(u, v, begin, end)].update(attr)
             return
 
+        # the graph is undirected, (v, u) during the same interval is the same edge
+        if u in self._adj and v in self._adj[u] and (v, u, begin, end) in self._adj[u][v]:
+            self._adj[u][v][(v, u, begin, end)].update(attr)
+            return
+
         iedge = (u, v, begin, end)
 
         # add nodes
-- 
2.43.0


From 4f869f31181cd819832eac6bb8832828e934df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 08/63] fix: exact interval match of has_edge and remove_edge
 on interval graphs

has_edge(overlapping=False) was always True for linked nodes and did not raise
without bounds, remove_edge(overlapping=False) raised TypeError. Emptied pair
entries of directed graphs are now dropped by the common removal helper, so
that the exact removal does not leave them behind either.
---
 dynetworkx/classes/intervaldigraph.py | 31 +++++++++++----------------
 dynetworkx/classes/intervalgraph.py   | 14 ++++++------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index a3aa684..c314f9b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -251,16 +251,16 @@ class IntervalDiGraph(IntervalGraph):
         if v not in self._pred[u]:
             return False
 
-        if begin is None and end is None:
-            if v in self._pred[u]:
-                return True
-            return False
-
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._pred[u][v]
+
+        if begin is None and end is None:
+            if v in self._pred[u]:
+                return True
+            return False
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -578,8 +578,8 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
+            iedge = (u, v, begin, end)
+            if iedge in self._pred[u][v]:
                 self.__remove_iedge(iedge)
             return
 
@@ -604,16 +604,6 @@ class IntervalDiGraph(IntervalGraph):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -970,6 +960,11 @@ class IntervalDiGraph(IntervalGraph):
         self._pred[iedge[0]][iedge[1]].pop(iedge, None)
         self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
+        # clean up empty dictionaries
+        if len(self._pred[iedge[0]][iedge[1]]) == 0:
+            self._pred[iedge[0]].pop(iedge[1], None)
+            self._succ[iedge[1]].pop(iedge[0], None)
+
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
         """Returns True if interval `iv` overlaps with begin and end.
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 229766a..70d8167 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -797,14 +797,14 @@ class IntervalGraph(object):
         if u not in self._adj or v not in self._adj[u]:
             return False
 
-        if begin is None and end is None:
-            return True
-
         if not overlapping:
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
+
+        if begin is None and end is None:
+            return True
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1067,9 +1067,9 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
+            for iedge in ((u, v, begin, end), (v, u, begin, end)):
+                if v in self._adj[u] and iedge in self._adj[u][v]:
+                    self.__remove_iedge(iedge)
             return
 
         iedges_to_remove = []
-- 
2.43.0


From 36c1328ed9532448f3aa10674e6d9984cc3bd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 09/63] fix: interval graphs did not reject reversed bounds
 when one bound is zero

---
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c314f9b..3f46bc6 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -262,7 +262,7 @@ class IntervalDiGraph(IntervalGraph):
                 return True
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -592,7 +592,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -910,7 +910,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 70d8167..0589501 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -806,7 +806,7 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1081,7 +1081,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
-- 
2.43.0


From f67f33d918439ea6126be9012afcf5a03ad63208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:05 +0000
Subject: [PATCH 10/63] fix: IntervalDiGraph.remove_node raised AttributeError

---
 dynetworkx/classes/intervaldigraph.py | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 3f46bc6..39b974a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -78,6 +78,37 @@ class IntervalDiGraph(IntervalGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges within the given interval.
+        Refer to IntervalGraph.remove_node for full description.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+        """
+        if n not in self._node:
+            return
+
+        for iedge in list(self.tree[begin:end]):
+            if iedge[0] == n or iedge[1] == n:
+                self.__remove_iedge(iedge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, begin, end, **attr):
         """Add an edge between u and v, during interval [begin, end).
 
-- 
2.43.0


From 380d64e1c7f9a5d7d04dd181a7e28a8f0bfd8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 11/63] fix: interval graph edges() took string and tuple nodes
 for lists of nodes

---
 dynetworkx/classes/intervaldigraph.py | 5 +++++
 dynetworkx/classes/intervalgraph.py   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 39b974a..e5e4f99 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -427,12 +427,17 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
+        # strings, and other iterables which are nodes of the graph, are single nodes
         try:
+            if isinstance(u, str) or u in self:
+                u = [u]
             _ = (e for e in u)
         except TypeError:
             u = [u]
 
         try:
+            if isinstance(v, str) or v in self:
+                v = [v]
             _ = (e for e in v)
         except TypeError:
             v = [v]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0589501..24dfdcd 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -947,12 +947,17 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
+        # strings, and other iterables which are nodes of the graph, are single nodes
         try:
+            if isinstance(u, str) or u in self:
+                u = [u]
             _ = (e for e in u)
         except TypeError:
             u = [u]
 
         try:
+            if isinstance(v, str) or v in self:
+                v = [v]
             _ = (e for e in v)
         except TypeError:
             v = [v]
-- 
2.43.0


From f7d347b8a08a9827afc91c67fe0cf93c9b2e81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:16 +0000
Subject: [PATCH 12/63] fix: interval graph edges() without bounds ignored all
 but the first listed node

---
 dynetworkx/classes/intervaldigraph.py | 14 +++++++-------
 dynetworkx/classes/intervalgraph.py   | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index e5e4f99..568b8bf 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -323,14 +323,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 24dfdcd..e9ef735 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -836,14 +836,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
-- 
2.43.0


From cfe54077415462e490e2f42ca39f1fa18153180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 13/63] fix: interval graph node queries without end missed
 zero-length edges at begin

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 568b8bf..e25a80c 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -1020,5 +1020,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e9ef735..912d072 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1282,7 +1282,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
-- 
2.43.0


From 65186f69883873b64fdf352fa7f6d523de0a5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 14/63] fix: compound queries on interval graphs with a
 predictive model

Every compound query on a trained graph raised an error, and the interval first
plan ignored direction, combined u and v with or, and queried bounds different
from the requested ones.
---
 dynetworkx/classes/intervaldigraph.py | 18 +++++++++---------
 dynetworkx/classes/intervalgraph.py   | 21 ++++++++++++---------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index e25a80c..c9339c2 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -451,30 +451,30 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.begin < self.tree.end:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 912d072..59f2e67 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -971,30 +971,33 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.tree.begin < self.tree.end:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = self.__edges_interval_first(begin, end)
+                if u == [None] or v == [None]:
+                    iedges = [e for e in iedges if e[0] in nodes or e[1] in nodes]
+                else:
+                    iedges = [e for e in iedges if (e[0] in u and e[1] in v) or (e[0] in v and e[1] in u)]
 
         # Node First
         else:
-- 
2.43.0


From 58574701ca789f6674c64513efcf0de4fa5aa537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:35 +0000
Subject: [PATCH 15/63] fix: IntervalDiGraph degree changes at the same time
 were reported out of order

---
 dynetworkx/classes/intervaldigraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c9339c2..6451aeb 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -724,7 +724,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -802,7 +802,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -878,10 +878,9 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From e6cd9813a2fee2bf807aca91758a700d41e9de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 16/63] fix: IntervalDiGraph.to_subgraph raised AttributeError

---
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 6451aeb..c1a2704 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -956,17 +956,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From fb05d08ae006e5f7c1cfe5afeec8cfb3bbfe05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 17/63] fix: add_nodes_from mistook tuple nodes of other
 lengths for node-attribute pairs

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..34e36d7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 59f2e67..741e359 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From a8304844e3fa1bc382e293d7004d2e5935949be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 18/63] fix: to_snapshots could not be used with fractional
 lengths or times

The number of snapshots was a float and then rejected, a length of zero raised
ZeroDivisionError instead of the documented error.
---
 dynetworkx/classes/impulsegraph.py  | 4 ++--
 dynetworkx/classes/intervalgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 34e36d7..53cb3ce 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1273,10 +1273,10 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 741e359..629ea1d 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1456,10 +1456,10 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From 513056ce516dd08b123ee7d2b93bfe26f89e2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 19/63] fix: to_snapshot_graph produced spurious zero-length
 snapshots

Ends shared by several edges, and ends which coincide with a later begin, were
processed more than once.
---
 dynetworkx/classes/intervalgraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 629ea1d..f6ebdae 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedSet, SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1549,7 +1549,7 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
+        time = SortedSet()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
         # for each slice in following iterations
         # We use a moving window specified by "begin" and "end" to slice each snapshots.
         begin = None
@@ -1586,6 +1586,7 @@ class IntervalGraph(object):
                             break
 
                     end = node.low
+                    time.discard(end)
                     time.add(node.high)
                     G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                                     edge_interval_data=edge_interval_data, node_data=node_data),
-- 
2.43.0


From 47aebe48f546938b2507875f7c2201514435e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:43 +0000
Subject: [PATCH 20/63] fix: IntervalDiGraph.from_* and load_from_txt returned
 undirected graphs

---
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f6ebdae..a325469 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1610,8 +1610,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1639,7 +1639,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1663,8 +1663,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1692,7 +1692,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1705,8 +1705,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1765,7 +1765,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From 53d38cb833f1ec78e4922330a3b35323f0066126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 21/63] fix: interval graph load_from_txt failed on blank lines

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a325469..083465b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1779,7 +1779,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
-- 
2.43.0


From b76768b8541f12d467025e47d73c86487dab8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:54 +0000
Subject: [PATCH 22/63] fix: interval graph load_from_txt skipped the first
 attribute when a duration is given

---
 dynetworkx/classes/intervalgraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 083465b..13edcea 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1797,7 +1797,8 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    # a duration is not a column of the file
+                    for data in line[4 if 'begin' in order and 'end' in order else 3:]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From 6386173c070744566eabe5cb35556048600ad50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 23/63] fix: interval graph load_from_txt with merge

The merging code took the nodes of an edge for its times and raised TypeError
when the attributes differ.
---
 dynetworkx/classes/intervalgraph.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 13edcea..2d8d16e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1828,14 +1828,11 @@ class IntervalGraph(object):
                     raise TypeError("Failed to convert interval time to {}".format(intervaltype))
 
                 if merge[0]:
-                    for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                    for edge, edge_data in G.edges([u], [v], begin - merge[1] - 1, end + merge[1] + 1, data=True):
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From c96c8800e24bf550121bfcfe650092a23d9a1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:45 +0000
Subject: [PATCH 24/63] fix: adding an existing impulse edge dropped its
 previous attributes

---
 dynetworkx/classes/impulsedigraph.py | 5 +++++
 dynetworkx/classes/impulsegraph.py   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..f42e3de 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -232,6 +232,11 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # if edge exists, just update attr
+        if u in self._pred and v in self._pred[u] and (u, v, t) in self._pred[u][v]:
+            self._pred[u][v][(u, v, t)].update(attr)
+            return
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 53cb3ce..ca230ac 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -569,6 +569,11 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # if edge exists, just update attr
+        if u in self._adj and v in self._adj[u] and (u, v, t) in self._adj[u][v]:
+            self._adj[u][v][(u, v, t)].update(attr)
+            return
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
-- 
2.43.0


From eac5fec471e2de2209458726f4839fb23c768976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 25/63] fix: undirected impulse graphs stored (v, u) as a
 second edge besides (u, v)

---
 dynetworkx/classes/impulsegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ca230ac..b8ecc8c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -574,6 +574,11 @@ class ImpulseGraph(object):
             self._adj[u][v][(u, v, t)].update(attr)
             return
 
+        # the graph is undirected, (v, u) at the same time is the same edge
+        if u in self._adj and v in self._adj[u] and (v, u, t) in self._adj[u][v]:
+            self._adj[u][v][(v, u, t)].update(attr)
+            return
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
-- 
2.43.0


From 36ddc99a6536b34430ae5af90158e019f74477d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 26/63] fix: removing impulse edges and nodes left stale times,
 nodes and pairs

remove_node without bounds left its edges in the time index, emptied times and
pairs stayed behind (wrong interval(), has_edge and snapshots), removing a
self-loop raised KeyError, and every removal printed the adjacency.
---
 dynetworkx/classes/impulsedigraph.py | 28 +++++++++++-----------
 dynetworkx/classes/impulsegraph.py   | 35 ++++++++++++----------------
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index f42e3de..c7fd46e 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -636,16 +636,6 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
@@ -941,13 +931,21 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
+        u, v, t = iedge
+        if u not in self._pred or v not in self._pred[u] or iedge not in self._pred[u][v]:
             return
 
+        self.tree[t].remove((u, v))
+        self._pred[u][v].pop(iedge, None)
+        self._succ[v][u].pop(iedge, None)
+
+        # clean up empty containers
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+        if len(self._pred[u][v]) == 0:
+            self._pred[u].pop(v, None)
+            self._succ[v].pop(u, None)
+
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
         Raises an exception if begin is larger than end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index b8ecc8c..30d15c1 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -500,10 +500,8 @@ class ImpulseGraph(object):
             return
 
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
+            for edge in self.edges(u=[n]):
+                self.__remove_iedge(edge)
 
         else:
             remove_edges = []
@@ -956,16 +954,6 @@ class ImpulseGraph(object):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
 
@@ -1040,13 +1028,20 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
+        u, v, t = iedge
+        if u not in self._adj or v not in self._adj[u] or iedge not in self._adj[u][v]:
             return
-        print(self._adj)
+
+        self.tree[t].remove((u, v))
+        self._adj[u][v].pop(iedge, None)
+        self._adj[v][u].pop(iedge, None)
+
+        # clean up empty containers
+        if len(self.tree[t]) == 0:
+            del self.tree[t]
+        if len(self._adj[u][v]) == 0:
+            self._adj[u].pop(v, None)
+            self._adj[v].pop(u, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 7f2790d0d4f48f1739a3f3228e67b985cff07be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:06 +0000
Subject: [PATCH 27/63] fix: ImpulseDiGraph.remove_node raised AttributeError

---
 dynetworkx/classes/impulsedigraph.py | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c7fd46e..2ee6d59 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -181,6 +181,36 @@ class ImpulseDiGraph(ImpulseGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all adjacent edges within the given interval.
+        Refer to ImpulseGraph.remove_node for full description.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+        """
+        if n not in self._node:
+            return
+
+        for edge in list(self.__search_tree(begin, end, inclusive)):
+            if edge[0] == n or edge[1] == n:
+                self.__remove_iedge(edge)
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, t, **attr):
         """Add an edge between u and v, at t.
 
-- 
2.43.0


From 8871d2385c6c0c27c01194d27efbe9240c13ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:33 +0000
Subject: [PATCH 28/63] fix: impulse graph edges() took string and tuple nodes
 for lists of nodes

Membership of an unhashable object is False as for interval graphs.
---
 dynetworkx/classes/impulsedigraph.py |  5 +++++
 dynetworkx/classes/impulsegraph.py   | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 2ee6d59..6fabbd7 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -493,12 +493,17 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
+        # strings, and other iterables which are nodes of the graph, are single nodes
         try:
+            if isinstance(u, str) or u in self:
+                u = [u]
             _ = (e for e in u)
         except TypeError:
             u = [u]
 
         try:
+            if isinstance(v, str) or v in self:
+                v = [v]
             _ = (e for e in v)
         except TypeError:
             v = [v]
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 30d15c1..63ede2e 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -196,7 +196,10 @@ class ImpulseGraph(object):
         True
         """
 
-        return n in self._node
+        try:
+            return n in self._node
+        except TypeError:
+            return False
 
     def interval(self):
         """Return a 2-tuple as (begin, end) interval of the entire
@@ -844,12 +847,17 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
+        # strings, and other iterables which are nodes of the graph, are single nodes
         try:
+            if isinstance(u, str) or u in self:
+                u = [u]
             _ = (e for e in u)
         except TypeError:
             u = [u]
 
         try:
+            if isinstance(v, str) or v in self:
+                v = [v]
             _ = (e for e in v)
         except TypeError:
             v = [v]
-- 
2.43.0


From a75a93b36da673a7e7e3df8365788ed1e2a9bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:40 +0000
Subject: [PATCH 29/63] fix: impulse graph edges() without bounds ignored all
 but the first listed node

---
 dynetworkx/classes/impulsedigraph.py | 16 ++++++++--------
 dynetworkx/classes/impulsegraph.py   | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 6fabbd7..5ac8e03 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -393,14 +393,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 63ede2e..a321cbf 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -747,14 +747,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
-- 
2.43.0


From fec15c3f510fc6238cacd33197071efb5c5143ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:47 +0000
Subject: [PATCH 30/63] fix: impulse graphs did not reject some reversed bounds

has_edge did not when one bound is zero, remove_edge never did.
---
 dynetworkx/classes/impulsedigraph.py | 4 +++-
 dynetworkx/classes/impulsegraph.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 5ac8e03..4474411 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -344,7 +344,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -663,6 +663,8 @@ class ImpulseDiGraph(ImpulseGraph):
                 iedges_to_remove.append(iv)
 
         else:
+            begin, end = self.__validate_interval(begin, end)
+
             for iv in self._pred[u][v]:
                 if self.__in_interval(iv[2], begin, end):
                     iedges_to_remove.append(iv)
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a321cbf..d03d3e6 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -656,7 +656,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -954,6 +954,8 @@ class ImpulseGraph(object):
                 iedges_to_remove.append(iv)
 
         else:
+            begin, end = self.__validate_interval(begin, end)
+
             for iv in self._adj[u][v]:
                 if self.__in_interval(iv[2], begin, end):
                     iedges_to_remove.append(iv)
-- 
2.43.0


From 96acc5088bc193076e3d47dcd1f48cb2f2b92135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:54 +0000
Subject: [PATCH 31/63] fix: impulse graph point queries and inclusive of
 remove_edge

A query with equal bounds is a point query, has_edge and remove_edge answered
it from inclusive instead, and the time index yielded its edges twice
(duplicating them in multigraph snapshots). remove_edge ignored inclusive.
---
 dynetworkx/classes/impulsedigraph.py | 23 +++++++++--------------
 dynetworkx/classes/impulsegraph.py   | 23 +++++++++--------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 4474411..267f9b2 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -666,7 +666,7 @@ class ImpulseDiGraph(ImpulseGraph):
             begin, end = self.__validate_interval(begin, end)
 
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1015,6 +1015,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -1036,19 +1037,13 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return begin <= t <= end
-        if inclusive == (True, False):
-            return begin <= t < end
-        if inclusive == (False, True):
-            return begin < t <= end
-        if inclusive == (False, False):
-            return begin < t < end
+        # equal bounds denote a single point in time
+        if begin is not None and begin == end:
+            return t == begin
+
+        after_begin = begin is None or t > begin or (inclusive[0] and t == begin)
+        before_end = end is None or t < end or (inclusive[1] and t == end)
+        return after_begin and before_end
 
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d03d3e6..3e96d55 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -957,7 +957,7 @@ class ImpulseGraph(object):
             begin, end = self.__validate_interval(begin, end)
 
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1085,6 +1085,7 @@ class ImpulseGraph(object):
         if begin is not None and begin == end and begin in self.tree:
             for edge in self.tree[begin]:
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1106,19 +1107,13 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return t >= begin and t <= end
-        if inclusive == (True, False):
-            return t >= begin and t < end
-        if inclusive == (False, True):
-            return t > begin and t <= end
-        if inclusive == (False, False):
-            return t > begin and t < end
+        # equal bounds denote a single point in time
+        if begin is not None and begin == end:
+            return t == begin
+
+        after_begin = begin is None or t > begin or (inclusive[0] and t == begin)
+        before_end = end is None or t < end or (inclusive[1] and t == end)
+        return after_begin and before_end
 
     def to_networkx_graph(self, begin=None, end=None, inclusive=(True, False), multigraph=False, edge_data=False,
                           edge_timestamp_data=False, node_data=False):
-- 
2.43.0


From b437636649d49db875b7f0ee4cb937d07fddbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:51 +0000
Subject: [PATCH 32/63] fix: edges() and degrees of impulse graphs ignored
 inclusive

edges() always used (True, False) and dropped edges at time zero in queries by
node. The declared (True, True) default of the directed class contradicted its
documented non-inclusive end, which the tests rely on, and is (True, False)
now like in the undirected class.
---
 dynetworkx/classes/impulsedigraph.py | 55 +++++++++-------------------
 dynetworkx/classes/impulsegraph.py   | 39 +++++---------------
 2 files changed, 26 insertions(+), 68 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 267f9b2..ab0980a 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -368,7 +368,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -402,15 +402,15 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -510,11 +510,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -538,13 +538,13 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -673,7 +673,7 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -727,9 +727,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -738,7 +738,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -796,7 +796,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -805,7 +805,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -858,7 +858,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -1045,27 +1045,6 @@ class ImpulseDiGraph(ImpulseGraph):
         before_end = end is None or t < end or (inclusive[1] and t == end)
         return after_begin and before_end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 3e96d55..7a352fa 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -726,7 +726,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -756,13 +756,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
@@ -864,11 +864,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -892,13 +892,13 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -1373,27 +1373,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From 1e21cdf527fd458d516c707c0365373bdd63ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 33/63] fix: ImpulseDiGraph in-degree changes missed the last
 timestamp, mean out-degree used in-degrees

---
 dynetworkx/classes/impulsedigraph.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ab0980a..5511179 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -787,11 +787,6 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
@@ -846,7 +841,7 @@ class ImpulseDiGraph(ImpulseGraph):
             l = 0
             for node in self.nodes(begin=begin, end=end, inclusive=inclusive):
                 n += 1
-                l += self.in_degree(node, begin=begin, end=end, inclusive=inclusive)
+                l += self.out_degree(node, begin=begin, end=end, inclusive=inclusive)
             return l / n
 
         # specified node, no degree_change, return degree
-- 
2.43.0


From 20e479a09b6aa5b318ad89bfc7500ca6e30d20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 34/63] fix: compound queries on impulse graphs with a
 predictive model

Directed graphs raised an error, and the interval first plan ignored direction,
combined u and v with or, and queried bounds different from the requested
ones.
---
 dynetworkx/classes/impulsedigraph.py | 20 ++++++++++----------
 dynetworkx/classes/impulsegraph.py   | 21 ++++++++++++---------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 5511179..1f978fc 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -517,30 +517,30 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 1:
+            graph_begin, graph_end = self.interval()
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 7a352fa..3bfe83c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -871,30 +871,33 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and len(self.tree) > 1:
+            graph_begin, graph_end = self.interval()
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
-            graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = self.__edges_interval_first(begin, end, inclusive)
+                if u == [None] or v == [None]:
+                    iedges = [e for e in iedges if e[0] in nodes or e[1] in nodes]
+                else:
+                    iedges = [e for e in iedges if (e[0] in u and e[1] in v) or (e[0] in v and e[1] in u)]
 
         # Node First
         else:
-- 
2.43.0


From ff42c81348ddab4bcb4e038d2b598a4951840249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 35/63] fix: ImpulseGraph.to_subgraph with edge data and
 timestamps raised KeyError

---
 dynetworkx/classes/impulsegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 3bfe83c..98645ed 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1191,7 +1191,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
-- 
2.43.0


From 14b9c8f88194eae82ce039763b50352f688de85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 36/63] fix: impulse to_snapshots could lose the last timestamp
 to rounding

---
 dynetworkx/classes/impulsegraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 98645ed..f66c68e 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1303,11 +1303,13 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
+            # the last snapshot includes the end of the graph, whatever the rounding of its bounds
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                self.to_subgraph(begin + length_of_snapshots * i, snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From 6b0668683cb2439f35343580f64dbf37db380f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:43 +0000
Subject: [PATCH 37/63] fix: ImpulseDiGraph.from_networkx_graph returned an
 undirected graph

---
 dynetworkx/classes/impulsegraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index f66c68e..09a59b3 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1378,8 +1378,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1404,7 +1404,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1417,8 +1417,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
            Timestamps must be integers or floats.
            Nodes can be any hashable objects.
@@ -1469,7 +1469,7 @@ class ImpulseGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = ImpulseGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From 854b9446d458c8bf874f2f2fdd1297c6958f36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:06 +0000
Subject: [PATCH 38/63] fix: impulse graph load_from_txt failed on blank lines

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 1f978fc..06a1963 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1105,7 +1105,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = re.split(delimiter+'+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 09a59b3..c99c1d8 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1482,7 +1482,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
-- 
2.43.0


From 9e8a954a1c58db23a99caef04bb4d044599b30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 39/63] fix: ImpulseDiGraph.load_from_txt interpreted the
 delimiter as a regular expression

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 06a1963..49259c5 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1108,7 +1108,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not line.strip():
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From 90732af8f33e393b0c9b23d9a64915a12bd630d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:18 +0000
Subject: [PATCH 40/63] fix: ImpulseDiGraph.generate_predictive_model iterated
 over times as if they were edges

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 49259c5..11683f3 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -593,7 +593,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
-- 
2.43.0


From e07ff1689c3d6467b243f070f6f65293e0129eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 41/63] fix: training a predictive model failed for fractional
 times and never ended for one node

load_from_txt(predict=True) failed with its default float times, and no node
was ever sampled from a graph with a single node.
---
 dynetworkx/classes/impulsedigraph.py  | 5 ++---
 dynetworkx/classes/impulsegraph.py    | 5 ++---
 dynetworkx/classes/intervaldigraph.py | 5 ++---
 dynetworkx/classes/intervalgraph.py   | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 11683f3..886ee92 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -573,9 +573,8 @@ class ImpulseDiGraph(ImpulseGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c99c1d8..72f0865 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -682,9 +682,8 @@ class ImpulseGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c1a2704..c6bb786 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -507,9 +507,8 @@ class IntervalDiGraph(IntervalGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2d8d16e..a33ec82 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1223,9 +1223,8 @@ class IntervalGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = graph_begin + (graph_end - graph_begin) * random.randint(0, 100 - interval_percent) / 100
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
-- 
2.43.0


From 07a21d0ef6d7696e965943a2e1944b1ee15243f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:09 +0000
Subject: [PATCH 42/63] fix: count_temporal_motif drops instances mapping a
 position to node 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From 06fd691e1f861ea0c2e330cb4f47129566a5a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 43/63] fix: count_temporal_motif undercounts one-edge motifs

---
 dynetworkx/algorithms/count_temporal_motif.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..950e364 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -223,8 +223,10 @@ def __decrement_counts(edges, motif_length, counts):
     None
     """
     suffixes = sorted(counts.keys(), key=len)
-    for e in edges:
-        counts[e] -= 1
+    # counts of complete motifs are totals, they never decrease
+    if motif_length > 1:
+        for e in edges:
+            counts[e] -= 1
 
     for suffix in suffixes:
         if len(suffix) / 2 < motif_length - 1:
-- 
2.43.0


From ac7a092346aecf5366200e4151a8d9fa522cba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:39 +0000
Subject: [PATCH 44/63] fix: SnapshotGraph time windows start or end inside a
 snapshot

---
 dynetworkx/classes/snapshotgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..80beb5d 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -634,7 +634,7 @@ class SnapshotGraph(object):
                 # Decrease 1 index if start is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
                 # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
+                if min_idx > 0 and start < self.snapshots.keys()[min_idx - 1][1]:
                     if split_overlaps:
                         # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
                         key, g = self.snapshots.popitem(min_idx - 1)
@@ -649,8 +649,8 @@ class SnapshotGraph(object):
                 max_idx = self.snapshots.bisect_left((end,))
                 # Split the snapshot if 'end' is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
+                if split_overlaps and max_idx > 0 and end < self.snapshots.keys()[max_idx - 1][1]:
+                    key, g = self.snapshots.popitem(max_idx - 1)
                     self.insert(g, key[0], end)
                     self.insert(copy.deepcopy(g), end, key[1])
 
-- 
2.43.0


From f0aea85048ff574d854681f86d512de37b650d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:46 +0000
Subject: [PATCH 45/63] fix: add_snapshot replaces an empty graph it is given

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..f84cfeb 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 80beb5d..86c122e 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From c1aac16534875417d878de052a0ad1d69b5e0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 46/63] fix: SnapshotGraph treats zero bounds and empty sbunch
 as omitted

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 60 +++++++++++++--------------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index f84cfeb..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 86c122e..0bffbee 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,9 +277,9 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             if nbunch:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 10b0e4f71bf4ea1c895ff356288928299fc1c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 47/63] fix: SnapshotGraph.degree ignores an empty nbunch and
 node 0

---
 dynetworkx/classes/snapshotgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 0bffbee..11538ba 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -280,12 +280,12 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 22456201ae3d3ef61c08bd893995a5cc08803f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:09 +0000
Subject: [PATCH 48/63] fix: SnapshotGraph.subgraph with sbunch raises
 TypeError

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 11538ba..39aaf4d 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -233,7 +233,7 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 5736eb1526b0e55084061d5832e96562f3c1d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:47 +0000
Subject: [PATCH 49/63] fix: SnapshotGraph.subgraph shares attributes and
 snapshots with its source

---
 dynetworkx/classes/snapshotgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 39aaf4d..ce79640 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -228,16 +228,16 @@ class SnapshotGraph(object):
         """
 
         subgraph = SnapshotGraph()
-        subgraph.graph = self.graph
+        subgraph.graph.update(self.graph)
 
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
-                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
+                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch).copy(), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
+                subgraph.add_snapshot(graph=snapshot.subgraph(nbunch).copy(), start=key[0], end=key[1])
 
         return subgraph
 
-- 
2.43.0


From 07e3bc02e67ad0628aa9a256e596e9e892803c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 50/63] fix: SnapshotGraph.load_from_txt links every pair of
 nodes

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index ce79640..574d44f 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -870,7 +870,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From dc26fd6f006752fac0483f9c7e0c82ae7c010ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:01 +0000
Subject: [PATCH 51/63] fix: SnapshotGraph.load_from_txt fails on blank lines

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 574d44f..574e6b2 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -843,7 +843,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From 5a78ea9c1d67b7501eab3b6d6f986e8eb64e145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 52/63] fix: SnapshotDiGraph.load_from_txt loses direction

---
 dynetworkx/classes/snapshotdigraph.py |  1 +
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e5985b0..eb89c02 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -4,6 +4,7 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 
 class SnapshotDiGraph(SnapshotGraph):
+    _snapshot_type = DiGraph
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 574e6b2..2f8f9a7 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _snapshot_type = Graph
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -801,8 +803,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -836,7 +838,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -870,7 +872,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix, dtype=float))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._snapshot_type)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From d63b1fb26284bc1eea59d8558234232e9266d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:10 +0000
Subject: [PATCH 53/63] fix: ImpulseDiGraph.edges treats a tuple or set of
 nodes as one node

---
 dynetworkx/classes/impulsedigraph.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 886ee92..6826d7d 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -369,10 +369,6 @@ class ImpulseDiGraph(ImpulseGraph):
         self._model = model
 
     def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
-        if not isinstance(u_list, list):
-            u_list = [u_list]
-        if not isinstance(v_list, list):
-            v_list = [v_list]
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
-- 
2.43.0


From 33b9fe7320f0486b270ae6f97817ceaa7da4cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 54/63] fix: from_snapshot_graph loses earlier slots of
 parallel edges

---
 dynetworkx/classes/intervalgraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a33ec82..2fe4de0 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1645,7 +1645,10 @@ class IntervalGraph(object):
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
                 if u_v in edge_dict:
-                    if begin in edge_dict[u_v]:
+                    if begin + period in edge_dict[u_v]:
+                        # parallel edge of a multigraph snapshot
+                        continue
+                    elif begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
                     else:
-- 
2.43.0


From b276317c45a15e4428e77b53f26a8387adf4557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 55/63] fix: reversed windows select interval edges in
 remove_node, nodes, number_of_nodes and to_subgraph

---
 dynetworkx/classes/intervaltree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index c65ffcc..b661ed6 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -1,4 +1,5 @@
 import operator
+from networkx.exception import NetworkXError
 
 class Node:
 
@@ -30,6 +31,10 @@ class IntervalTree:
         self.end = float("-inf")
 
     def __getitem__(self, item):
+        if item.start is not None and item.stop is not None and item.start > item.stop:
+            raise NetworkXError("IntervalTree: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(item.start, item.stop))
+
         return self.slice(item.start, item.stop, self.root)
 
     def updateMax(self, node):
-- 
2.43.0


From b98a835dfd287ab7e38458b0796191a2d8e56f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:22 +0000
Subject: [PATCH 56/63] fix: has_node(end=...) compares with infinity when the
 interval graph has no edges

With times that are not numbers (dates, strings) this raised TypeError.
---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2fe4de0..624bfff 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -485,7 +485,7 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin is None and end < self.tree.begin:
+        if begin is None and (self.tree.root is None or end < self.tree.begin):
             return False
 
         if begin is not None and end is not None and end < begin:
-- 
2.43.0


From d9a8102475c198ed9bba5843f4f7680fdcd23a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 57/63] fix: load_from_txt with a duration raises ValueError
 for unconvertible times

Without a duration the same field raises TypeError, as the method announces.
---
 dynetworkx/classes/intervalgraph.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 624bfff..1e92fbe 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1790,12 +1790,16 @@ class IntervalGraph(object):
                 if 'begin' in order and 'end' in order:
                     begin = line[order.index('begin')]
                     end = line[order.index('end')]
-                elif 'begin' in order:
-                    begin = intervaltype(line[order.index('begin')])
-                    end = begin + order[3]
-                elif 'end' in order:
-                    end = intervaltype(line[order.index('end')])
-                    begin = end - order[3]
+                else:
+                    column = 'begin' if 'begin' in order else 'end'
+                    try:
+                        time = intervaltype(line[order.index(column)])
+                    except ValueError:
+                        raise TypeError("Failed to convert interval time to {}".format(intervaltype))
+                    if column == 'begin':
+                        begin, end = time, time + order[3]
+                    else:
+                        begin, end = time - order[3], time
 
                 edgedata = {}
                 try:
-- 
2.43.0


From faca0be3cf92968327a69d09f7883d391a3e2cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:35 +0000
Subject: [PATCH 58/63] fix: load_from_txt left an integer label as text when
 the line's other label is text

---
 dynetworkx/classes/impulsedigraph.py | 3 +++
 dynetworkx/classes/impulsegraph.py   | 3 +++
 dynetworkx/classes/intervalgraph.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 6826d7d..5ca1214 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1128,6 +1128,9 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 72f0865..1baf4b3 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1509,6 +1509,9 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 1e92fbe..8d35df3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1823,6 +1823,9 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
-- 
2.43.0


From fc0a1a81f9c3d4fd4bd28e1b78da43b008322fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 59/63] fix: count_temporal_motif fails or misses motifs on
 nodes that do not compare

Sub-graphs were enumerated by comparing node labels: labels of different
types raised TypeError, and partially ordered ones (frozensets) lost
instances silently.  Order nodes by their position instead.
---
 dynetworkx/algorithms/count_temporal_motif.py | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 950e364..9799359 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -19,12 +19,14 @@ def __enumerate_subgraphs(g, size_k):
     -------
     an iterator for all size_k sub-graphs of g
     """
+    # nodes may be of types that do not compare, so they are ordered by their position in the graph
+    order = {v: i for i, v in enumerate(g.nodes())}
     for v in g.nodes():
-        v_extension = set(filter(lambda x: x > v, g.neighbors(v)))
-        yield from __extend_subgraph({v}, v_extension, v, g, size_k)
+        v_extension = set(filter(lambda x: order[x] > order[v], g.neighbors(v)))
+        yield from __extend_subgraph({v}, v_extension, v, g, size_k, order)
 
 
-def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
+def __extend_subgraph(v_subgraph, v_extension, v, g, size_k, order):
     """A recursive helper function for __enumerate_subgraphs() to enumerate all size_k connected sub-graphs
 
     Parameters
@@ -39,6 +41,8 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
 
     size_k: size of sub-graphs
 
+    order: dictionary of the position of each node of g
+
     Returns
     -------
     an iterator for all size_k sub-graphs of g with v as the starting node
@@ -50,9 +54,9 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
             w = random.choice(tuple(v_extension))
             v_extension.remove(w)
 
-            v2_extension = v_extension.copy().union(set(filter(lambda x: x > v,
+            v2_extension = v_extension.copy().union(set(filter(lambda x: order[x] > order[v],
                                                                set(g.neighbors(w)) - v_subgraph)))
-            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k)
+            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k, order)
 
 
 def count_temporal_motif(G, sequence, delta):
@@ -144,7 +148,7 @@ def count_temporal_motif(G, sequence, delta):
             __increment_counts(same_time_edges, len(sequence), counts)
 
         # Extract out count for sequences that are isomorphic to the temporal motifs
-        for keys in sorted(counts.keys()):
+        for keys in counts:
             if len(keys) / 2 == len(sequence):
                 if counts[keys] == 0:
                     continue
@@ -183,7 +187,11 @@ def count_temporal_motif(G, sequence, delta):
     nodes = []
     for key in total_counts: # gathers all nodes
         nodes += list(key)
-    nodes = sorted(list(set(nodes))) # sorts and gets rid of duplicates
+    nodes = list(OrderedDict.fromkeys(nodes)) # gets rid of duplicates
+    try:
+        nodes.sort()
+    except TypeError: # nodes of types that do not compare stay in the order they were found
+        pass
 
     # creates dataframe where columns = nodes, row indices = position number, and value = number of times each node is at each position
     nppp = pd.DataFrame(index=nodes, columns=motif) # creates the dataframe
-- 
2.43.0


From 2c87e43a8599fcd4c092d47dd755c2947985c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 60/63] fix: trained graphs answer queries with an infinite
 bound

A compound query on a graph with a predictive model raised ValueError
when begin or end was infinite: the share of the time line the window
covers was not finite. The bounds are clamped to the graph's own interval
before the share is worked out.
---
 dynetworkx/classes/impulsedigraph.py  | 4 ++--
 dynetworkx/classes/impulsegraph.py    | 4 ++--
 dynetworkx/classes/intervaldigraph.py | 4 ++--
 dynetworkx/classes/intervalgraph.py   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 5ca1214..138e3ce 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -525,8 +525,8 @@ class ImpulseDiGraph(ImpulseGraph):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
-            query_begin = graph_begin if begin is None else begin
-            query_end = graph_end if end is None else end
+            query_begin = graph_begin if begin is None else min(max(begin, graph_begin), graph_end)
+            query_end = graph_end if end is None else min(max(end, graph_begin), graph_end)
 
             interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1baf4b3..872dd00 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -882,8 +882,8 @@ class ImpulseGraph(object):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
-            query_begin = graph_begin if begin is None else begin
-            query_end = graph_end if end is None else end
+            query_begin = graph_begin if begin is None else min(max(begin, graph_begin), graph_end)
+            query_end = graph_end if end is None else min(max(end, graph_begin), graph_end)
 
             interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c6bb786..60d435d 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -463,8 +463,8 @@ class IntervalDiGraph(IntervalGraph):
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            query_begin = graph_begin if begin is None else begin
-            query_end = graph_end if end is None else end
+            query_begin = graph_begin if begin is None else min(max(begin, graph_begin), graph_end)
+            query_end = graph_end if end is None else min(max(end, graph_begin), graph_end)
 
             interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 8d35df3..163ba5b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -983,8 +983,8 @@ class IntervalGraph(object):
             node_percent = len(nodes) / self.number_of_nodes()
 
             graph_begin, graph_end = self.interval()
-            query_begin = graph_begin if begin is None else begin
-            query_end = graph_end if end is None else end
+            query_begin = graph_begin if begin is None else min(max(begin, graph_begin), graph_end)
+            query_end = graph_end if end is None else min(max(end, graph_begin), graph_end)
 
             interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
-- 
2.43.0


From 304ff4f98dd46abb1b9eba1ec7958995130fde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 61/63] fix: training on a graph without edges never returned

---
 dynetworkx/classes/impulsedigraph.py  | 8 ++++++++
 dynetworkx/classes/impulsegraph.py    | 4 ++++
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 138e3ce..9aaf8ad 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -361,6 +361,10 @@ class ImpulseDiGraph(ImpulseGraph):
         trainingSize : int
             Number of samples to generate.
         """
+        if not self.edges():
+            self._model = None
+            return
+
         X, y = self.__generate_training_data(training_size)
 
         model = LinearRegression()
@@ -606,6 +610,10 @@ class ImpulseDiGraph(ImpulseGraph):
         trainingSize : int
             Number of samples to generate.
         """
+        if not self.edges():
+            self._model = None
+            return
+
         X, y = self.__generate_training_data(training_size)
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 872dd00..2ab4502 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -718,6 +718,10 @@ class ImpulseGraph(object):
         trainingSize : int
             Number of samples to generate.
         """
+        if not self.edges():
+            self._model = None
+            return
+
         X, y = self.__generate_training_data(training_size)
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 60d435d..3629e54 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -544,6 +544,10 @@ class IntervalDiGraph(IntervalGraph):
         trainingSize : int
             Number of samples to generate.
         """
+        if not self.edges():
+            self._model = None
+            return
+
         X, y = self.__generate_training_data(training_size)
 
         model = LinearRegression()
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 163ba5b..f33ca9b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1259,6 +1259,10 @@ class IntervalGraph(object):
         trainingSize : int
             Number of samples to generate.
         """
+        if not self.edges():
+            self._model = None
+            return
+
         X, y = self.__generate_training_data(training_size)
 
         model = LinearRegression()
-- 
2.43.0


From 11951c578a7857e18dde35249dde2dc44f17bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:42 +0000
Subject: [PATCH 62/63] fix: loading and converting failed on attributes named
 like parameters of add_edge

---
 dynetworkx/classes/impulsedigraph.py  |  6 +++++-
 dynetworkx/classes/impulsegraph.py    |  8 ++++++--
 dynetworkx/classes/intervaldigraph.py |  4 ++++
 dynetworkx/classes/intervalgraph.py   | 12 ++++++++----
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 9aaf8ad..32a76c7 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -261,6 +261,10 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 2, 10 weight=3)
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
+        self._add_edge(u, v, t, attr)
+
+    def _add_edge(self, u, v, t, attr):
+        """Add an edge with the attributes in the dict attr, which may be named like the parameters of `add_edge`."""
 
         # if edge exists, just update attr
         if u in self._pred and v in self._pred[u] and (u, v, t) in self._pred[u][v]:
@@ -1148,7 +1152,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 except:
                     raise TypeError("Failed to convert interval time to {}".format(timestamptype))
 
-                G.add_edge(u, v, t, **edgedata)
+                G._add_edge(u, v, t, edgedata)
 
             if predict is True:
                 G.generate_predictive_model()
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2ab4502..d7775d4 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -569,6 +569,10 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 2, 10 weight=3)
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
+        self._add_edge(u, v, t, attr)
+
+    def _add_edge(self, u, v, t, attr):
+        """Add an edge with the attributes in the dict attr, which may be named like the parameters of `add_edge`."""
 
         # if edge exists, just update attr
         if u in self._adj and v in self._adj[u] and (u, v, t) in self._adj[u][v]:
@@ -1416,7 +1420,7 @@ class ImpulseGraph(object):
                 if key != timestamp:
                     attr[key] = edge[2][key]
 
-            G.add_edge(edge[0], edge[1], edge[2][timestamp], **attr)
+            G._add_edge(edge[0], edge[1], edge[2][timestamp], attr)
 
         return G
 
@@ -1525,7 +1529,7 @@ class ImpulseGraph(object):
                 except:
                     raise TypeError("Failed to convert interval time to {}".format(timestamptype))
 
-                G.add_edge(u, v, t, **edgedata)
+                G._add_edge(u, v, t, edgedata)
 
         if predict is True:
             G.generate_predictive_model()
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 3629e54..f4d4607 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -161,6 +161,10 @@ class IntervalDiGraph(IntervalGraph):
         >>> G.add_edge(1, 2, 3, 10 weight=3)
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
+        self._add_edge(u, v, begin, end, attr)
+
+    def _add_edge(self, u, v, begin, end, attr):
+        """Add an edge with the attributes in the dict attr, which may be named like the parameters of `add_edge`."""
 
         if begin > end:
             raise NetworkXError("IntervalDiGraph: edge end must not be smaller than begin {0}.".format((u, v, begin, end)))
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f33ca9b..ecd63c2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -676,6 +676,10 @@ class IntervalGraph(object):
         >>> G.add_edge(1, 2, 3, 10 weight=3)
         >>> G.add_edge(1, 3, 4, 9, weight=7, capacity=15, length=342.7)
         """
+        self._add_edge(u, v, begin, end, attr)
+
+    def _add_edge(self, u, v, begin, end, attr):
+        """Add an edge with the attributes in the dict attr, which may be named like the parameters of `add_edge`."""
 
         if begin > end:
             raise NetworkXError("IntervalGraph: edge end must not be smaller than begin {0}.".format((u, v, begin, end)))
@@ -1664,8 +1668,8 @@ class IntervalGraph(object):
 
         for edge_list in edge_dict:
             for edge in edge_dict[edge_list]:
-                G.add_edge(edge_list[0], edge_list[1], edge_dict[edge_list][edge][0], edge,
-                           **edge_dict[edge_list][edge][1])
+                G._add_edge(edge_list[0], edge_list[1], edge_dict[edge_list][edge][0], edge,
+                            dict(edge_dict[edge_list][edge][1]))
 
         return G
 
@@ -1707,7 +1711,7 @@ class IntervalGraph(object):
                 if key != begin and key != end:
                     attr[key] = edge[2][key]
 
-            G.add_edge(edge[0], edge[1], edge[2][begin], edge[2][end], **attr)
+            G._add_edge(edge[0], edge[1], edge[2][begin], edge[2][end], attr)
 
         return G
 
@@ -1847,7 +1851,7 @@ class IntervalGraph(object):
                             end = max(end, edge[3])
                             G.remove_edge(u, v, edge[2], edge[3], overlapping=False)
 
-                G.add_edge(u, v, begin, end, **edgedata)
+                G._add_edge(u, v, begin, end, edgedata)
 
         if predict is True:
             G.generate_predictive_model()
-- 
2.43.0


From 618042ca6412e60ddee8fa194677b7232c7982cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:53 +0000
Subject: [PATCH 63/63] fix: loading a snapshot graph took the e of 1e-05 for
 the name of a bound

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 2f8f9a7..7c45cd9 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -848,7 +848,7 @@ class SnapshotGraph(object):
                 if not line.strip():
                     continue
 
-                p = min(line.find(start), line.find(end))
+                p = min(line.find(start + '='), line.find(end + '='))
                 interval = [None, None]
 
                 for item in line[p:].split():
-- 
2.43.0

