From 6a84620e43946aa062b24c7668dd9c02dd4f852a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 1/3] fix: stop SweepLine neighbours lookup from swallowing
 ValueError of the context

'above' & 'below' treated any 'ValueError' -- including ones raised
by the context's 'angle_orientation' while looking an event up --
as absence of a neighbour, so a failing query could return an answer.
---
 orient/core/sweep_line.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/orient/core/sweep_line.py b/orient/core/sweep_line.py
index 1633938..4d139c8 100644
--- a/orient/core/sweep_line.py
+++ b/orient/core/sweep_line.py
@@ -35,16 +35,18 @@ class SweepLine(Generic[Event]):
         self._set.remove(event)
 
     def above(self, event: Event) -> Optional[Event]:
-        try:
-            return self._set.next(event)
-        except ValueError:
-            return None
+        tree = self._set.tree
+        node = tree.find(self._set.key(event))
+        if node is not None:
+            node = tree.successor(node)
+        return None if node is None else node.value
 
     def below(self, event: Event) -> Optional[Event]:
-        try:
-            return self._set.prev(event)
-        except ValueError:
-            return None
+        tree = self._set.tree
+        node = tree.find(self._set.key(event))
+        if node is not None:
+            node = tree.predecessor(node)
+        return None if node is None else node.value
 
 
 class SweepLineKey:
-- 
2.43.0


From f0eb85e38ff754a967d74f012b8b9a20c7446692 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 2/3] fix: stop contours equality check from swallowing
 ValueError of points

Error raised by points comparison was taken for absence of a vertex,
so contours with failing vertices were considered to be different.
---
 orient/core/contour.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orient/core/contour.py b/orient/core/contour.py
index 51f930a..72bd71f 100644
--- a/orient/core/contour.py
+++ b/orient/core/contour.py
@@ -135,9 +135,12 @@ def equal(left: Contour, right: Contour, context: Context) -> bool:
     left_vertices, right_vertices = left.vertices, right.vertices
     if len(left_vertices) != len(right_vertices):
         return False
-    try:
-        index = right_vertices.index(left_vertices[0])
-    except ValueError:
+    first_vertex = left_vertices[0]
+    index = next((index
+                  for index, vertex in enumerate(right_vertices)
+                  if vertex == first_vertex),
+                 None)
+    if index is None:
         return False
     same_oriented = orientation(left, context) is orientation(right, context)
     right_step = 1 if same_oriented else -1
-- 
2.43.0


From 783addd2e22a63fc4a29d47423c58ae09c221b7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 3/3] fix: stop multisegment relation from swallowing KeyError
 of points

Error raised by hashing or comparing an intersection point was taken
for absence of a previously found touching orientation.
---
 orient/core/multisegment.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/orient/core/multisegment.py b/orient/core/multisegment.py
index 0081c42..5659902 100644
--- a/orient/core/multisegment.py
+++ b/orient/core/multisegment.py
@@ -78,21 +78,19 @@ def relate_segment(multisegment: Multisegment, segment: Segment,
                             non_touched_endpoint = (sub_start
                                                     if intersection == sub_end
                                                     else sub_end)
-                            try:
-                                previous_orientation = (
-                                    middle_touching_orientations[intersection]
-                                )
-                            except KeyError:
+                            previous_orientation = (
+                                middle_touching_orientations.get(intersection)
+                            )
+                            if previous_orientation is None:
                                 middle_touching_orientations[intersection] = (
                                     context.angle_orientation(
                                             start, end, non_touched_endpoint
                                     )
                                 )
-                            else:
-                                if context.angle_orientation(
-                                        start, end, non_touched_endpoint
-                                ) is not previous_orientation:
-                                    has_no_cross = False
+                            elif context.angle_orientation(
+                                    start, end, non_touched_endpoint
+                            ) is not previous_orientation:
+                                has_no_cross = False
                 elif has_no_cross and relation is Relation.CROSS:
                     has_no_cross = False
     if has_no_overlap:
-- 
2.43.0

