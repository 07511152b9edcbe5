From e87929b798e34a6842cf6528341935861408e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 01/44] fix: union/xor no longer add the absent side's default
 to the operand's rank

The default fiber synthesised for the absent side of | and ^ was appended to
the next rank of the operand's tensor, leaving fibers in the rank list that
are not part of the tree.
---
 fibertree/core/iterators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bbf87a..060d1ab 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -910,7 +910,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                         a_pos += 1
 
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
@@ -920,7 +920,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -929,7 +929,7 @@ def __or__(self, other):
                     Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
                     a_pos += 1
 
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
@@ -938,7 +938,7 @@ def __or__(self, other):
                         Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
                         b_pos += 1
 
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
@@ -1013,23 +1013,23 @@ def __xor__(self, other):
                     b_coord, b_payload = _get_next(b)
 
                 elif a_coord < b_coord:
-                    b_default = self.b_fiber._createDefault()
+                    b_default = self.b_fiber._createDefault(addtorank=False)
                     yield a_coord, ("A", a_payload, b_default)
                     a_coord, a_payload = _get_next(a)
 
                 # a_coord > b_coord
                 else:
-                    a_default = self.a_fiber._createDefault()
+                    a_default = self.a_fiber._createDefault(addtorank=False)
                     yield b_coord, ("B", a_default, b_payload)
                     b_coord, b_payload = _get_next(b)
 
             while a_coord is not None:
-                b_default = self.b_fiber._createDefault()
+                b_default = self.b_fiber._createDefault(addtorank=False)
                 yield a_coord, ("A", a_payload, b_default)
                 a_coord, a_payload = _get_next(a)
 
             while b_coord is not None:
-                a_default = self.a_fiber._createDefault()
+                a_default = self.a_fiber._createDefault(addtorank=False)
                 yield b_coord, ("B", a_default, b_payload)
                 b_coord, b_payload = _get_next(b)
 
-- 
2.43.0


From 069095283e7b8aab04f77b9778642eaf2a873949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 02/44] fix: intersection of an empty fiber with a
 tuple-coordinate fiber

The arity of an exhausted operand was taken to be 1, so that & tried to pad
its (non-existent) coordinates and raised TypeError.
---
 fibertree/core/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 060d1ab..f2bea7e 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -715,7 +715,7 @@ def __and__(self, other):
             len_a = len(a_coord) if isinstance(a_coord, tuple) else 1
             len_b = len(b_coord) if isinstance(b_coord, tuple) else 1
 
-            if len_a == len_b:
+            if len_a == len_b or a_coord is None or b_coord is None:
                 def succ_next(a, a_coord, a_payload, b, b_coord, b_payload):
                     return *_get_next(a), *_get_next(b)
 
-- 
2.43.0


From 7dc711aa06b868e49dc1a2fcfe92f72ae6dae3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 03/44] fix: lazy difference and prune results keep an
 uncompressed rank's format

Iterating a - b (or a.prune()) for an operand whose rank is uncompressed lost
every coordinate holding the default, because the lazy result was treated as
compressed.
---
 fibertree/core/fiber.py     |  1 +
 fibertree/core/iterators.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b85828c..3ff4c5d 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1074,6 +1074,7 @@ class Fiber:
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
         result._setDefault(self.getDefault())
         result.getRankAttrs().setId(self.getRankAttrs().getId())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
         return result
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index f2bea7e..cc16bb9 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -24,6 +24,9 @@ def __iter__(self, tick=True, start_pos=None):
 
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
+    elif fmt == "U" and self.isLazy():
+        # A lazy fiber already presents every coordinate of its range
+        return self.iterRange(None, None, tick=tick, skip_empty=False)
     elif fmt == "U":
         # Warning: Because this covers only the active range, it will not work
         # for fibers with halos
@@ -119,7 +122,7 @@ def iterActiveShapeRef(self, tick=True):
     """
     return self.iterRangeShapeRef(*self.getActive(), tick=tick)
 
-def iterRange(self, start, end, tick=True, start_pos=None):
+def iterRange(self, start, end, tick=True, start_pos=None, skip_empty=True):
     """
     Iterate over the non-default elements within the given range
 
@@ -137,6 +140,9 @@ def iterRange(self, start, end, tick=True, start_pos=None):
     start_pos: Optional[int]
         Saved position to start iteration
 
+    skip_empty: bool
+        False if elements with default (empty) payloads are emitted too
+
     """
     # Cannot save a position of a lazy fiber
     assert not self.isLazy() or start_pos is None
@@ -169,7 +175,8 @@ def iterRange(self, start, end, tick=True, start_pos=None):
 
         # If we are within the range, emit the non-default elements
         elif start is None or coord >= start:
-            if not Payload.isEmpty(payload, default=self.getDefault()):
+            if not skip_empty \
+                    or not Payload.isEmpty(payload, default=self.getDefault()):
                 if start_pos is not None:
                     self.setSavedPos(i + j, distance=j)
 
@@ -1366,6 +1373,7 @@ def __sub__(self, other):
     result = self.fromIterator(sub_iterator, active_range=self.getActive())
     result._setDefault(self.getDefault())
     result.getRankAttrs().setId(self.getRankAttrs().getId())
+    result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
     return result
 
-- 
2.43.0


From 69beafdd5550580fb99ab015e680fd9101998f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 04/44] fix: projection of fibers whose stored elements are all
 empty, reversed or uncompressed

project() raised StopIteration when every stored element is empty, and an
order-reversing projection compared payloads with default 0 and ignored an
uncompressed rank's format.
---
 fibertree/core/fiber.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 3ff4c5d..bf958d1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1236,10 +1236,13 @@ class Fiber:
 
         # Get an example of a coordinate if one was not provided
         if coord_ex is None:
-            if len(self) > 0:
-                coord_ex, _ = next(self.iterOccupancy(tick=False))
+            first = next(self.iterOccupancy(tick=False), None)
+            if first is not None:
+                coord_ex = first.coord
+            elif not self.isLazy() and self.coords:
+                coord_ex = self.coords[0]
             else:
-                coord_ex = 0
+                coord_ex = self.getActive()[0]
 
         c0 = Fiber._transCoord(coord_ex, lambda c: 0)
         c1 = Fiber._transCoord(coord_ex, lambda c: 1)
@@ -1251,12 +1254,15 @@ class Fiber:
 
             # Build an iterator over the reversed fiber
             class reversed_iterator:
-                cps = list(zip(self.coords, self.payloads))
+                fbr = self
 
                 def __iter__(self):
-                    return reversed(self.cps)
+                    return reversed(list(self.fbr.__iter__(tick=False)))
 
             fiber = Fiber.fromIterator(reversed_iterator)
+            fiber._setDefault(self.getDefault())
+            fiber.getRankAttrs().setId(self.getRankAttrs().getId())
+            fiber.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
 
         else:
             fiber = self
@@ -1336,6 +1342,7 @@ class Fiber:
 
         result = Fiber.fromIterator(project_iterator, active_range=(min_, max_))
         result._setDefault(self.getDefault())
+        result.getRankAttrs().setFormat(self.getRankAttrs().getFormat())
         if rank_id is not None:
             result.getRankAttrs().setId(rank_id)
 
-- 
2.43.0


From 40964180e0c413e180efa62d18e02cb38b424d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 05/44] fix: leader-follower intersection ignores a stale saved
 position of a follower

The first lookup used no start position and then adopted whatever saved
position an earlier use of the follower had left behind, which may lie beyond
the next coordinate.
---
 fibertree/core/iterators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index cc16bb9..73ae268 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -523,7 +523,7 @@ def intersection(*args, **kwargs):
             fibers = args
 
             def __iter__(self):
-                start_pos = [None] * (len(self.fibers) - 1)
+                start_pos = [0] * (len(self.fibers) - 1)
 
                 is_collecting = Metrics.isCollecting()
                 leader_traced = False
@@ -543,9 +543,7 @@ def intersection(*args, **kwargs):
                     for j, fiber in enumerate(self.fibers[1:]):
                         p_fiber = fiber.getPayload(c, start_pos=start_pos[j], trace=traces[j + 1])
 
-                        saved = fiber.getSavedPos()
-                        if saved > 0:
-                            start_pos[j] = saved
+                        start_pos[j] = fiber.getSavedPos()
 
                         payloads.append(p_fiber)
 
-- 
2.43.0


From 0138a7666dd12c55b11e225d43a3c33eaf0925ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 06/44] fix: default of a synthesised sub-fiber of an empty
 unowned fiber is not None

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bf958d1..74b010a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1692,7 +1692,7 @@ class Fiber:
                         # Set the owner, but do not add to rank
                         #
                         value.setOwner(owner.next_rank)
-                else:
+                elif next_default is not None:
                     value._setDefault(next_default)
             else:
                 assert False, "Unsupported Payload type"
-- 
2.43.0


From f505893a1bb2d1c7b96c7b76c3a93889e91aeb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 07/44] fix: n-ary union delivers each absent operand's own
 default

The default of a nested lazy union was instantiated without reference to the
operand, so absent sub-fibers of a tensor with a non-zero leaf default had the
wrong default.
---
 fibertree/core/iterators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 73ae268..4bdf7eb 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -594,6 +594,7 @@ def union(*args):
     class union_iterator:
         nested = nested_result
         num_args = len(args)
+        fibers = args
 
         def __iter__(self):
             for c, np in self.nested:
@@ -616,6 +617,12 @@ def union(*args):
                     p[0] = "A" + p[0]
 
                 p[1] = np
+
+                # Absent sides get their own fiber's default
+                for i, fiber in enumerate(self.fibers):
+                    if chr(ord("A") + i) not in p[0]:
+                        p[i + 1] = fiber._createDefault(addtorank=False)
+
                 yield CoordPayload(c, tuple(p))
 
     fiber = args[0].fromIterator(union_iterator, active_range=args[0].getActive())
-- 
2.43.0


From 6a28f3bf1e5e557511f69eb063ca213bc74856aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 08/44] fix: updateCoords updates every fiber of the rank and
 rejects duplicate coordinates before changing anything

---
 fibertree/core/fiber.py | 80 ++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 74b010a..158b6c9 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2446,7 +2446,9 @@ class Fiber:
         Raises
         ------
 
-        Nothing
+        CoordinateError
+            Two coordinates of a "unique" fiber were given the same
+            new value (the fiber is left unchanged)
 
 
         Notes
@@ -2462,61 +2464,67 @@ class Fiber:
         increasing and re-orders to make sure `self.coords` and
         `self.payloads` preserve monotonacity.
 
-        The "unique" property is not checked.
-
         """
 
         assert not self.isLazy()
 
         if len(self.coords) == 0:
-            # Nothing to do
+            # If fiber is empty just return
             return None
 
         if rankid is not None:
             depth = self._rankid2depth(rankid)
 
-        if depth > 0:
-            # Recurse down to depth...
-            for p in self.payloads:
-                p.updateCoords(func, depth=depth - 1, new_shape=new_shape)
-                return None
-
-        # Update my coordinates
+        #
+        # Find the fibers to update
+        #
+        fibers = [self]
+        for _ in range(depth):
+            fibers = [p for fiber in fibers for p in fiber.payloads]
 
-        no_sort_needed = True
+        #
+        # Compute (and check) the new coordinates before changing anything
+        #
+        updates = []
+        for fiber in fibers:
+            new_coords = [func(i, c, p) for i, (c, p)
+                          in enumerate(zip(fiber.coords, fiber.payloads))]
 
-        last_coord = None
+            if fiber._unique and len(set(new_coords)) != len(new_coords):
+                raise CoordinateError
 
-        for i in range(len(self.coords)):
-            new_coord = func(i, self.coords[i], self.payloads[i])
-            self.coords[i] = new_coord
+            shape = new_shape
+            if shape is None:
+                shape = fiber.getRankAttrs().getShape()
 
-            no_sort_needed = no_sort_needed and ((last_coord is None) or (last_coord <= new_coord))
-            last_coord = new_coord
+            assert shape is None or len(new_coords) == 0 \
+                or isinstance(shape, type(new_coords[0])), \
+                "Type of shape must match shape of coordinates"
 
-        if self._ordered and not no_sort_needed:
-            #
-            # Resort the coords/payloads
-            #
-            # self.logger.debug("Fiber.updateCoords() - sort needed")
+            updates.append((fiber, new_coords))
 
-            zipped_cp = zip(self.coords, self.payloads)
-            sorted_cp = sorted(zipped_cp)
-            self.coords, self.payloads = [list(tuple) for tuple in zip(*sorted_cp)]
+        for fiber, new_coords in updates:
+            fiber.coords = new_coords
 
-        #
-        # Update the fiber's rank_id and/or shape
-        #
-        if new_rank_id is not None:
-            self.getRankAttrs().setId(new_rank_id)
+            if fiber._ordered:
+                #
+                # Resort the coords/payloads, if needed
+                #
+                order = sorted(range(len(new_coords)),
+                               key=lambda i: new_coords[i])
 
-        if new_shape is not None:
-            self.getRankAttrs().setShape(new_shape)
+                if order != list(range(len(new_coords))):
+                    fiber.coords = [fiber.coords[i] for i in order]
+                    fiber.payloads = [fiber.payloads[i] for i in order]
 
-        new_shape = self.getRankAttrs().getShape()
+            #
+            # Update the fiber's rank_id and/or shape
+            #
+            if new_rank_id is not None:
+                fiber.getRankAttrs().setId(new_rank_id)
 
-        assert isinstance(new_shape, type(self.coords[0])), \
-            "Type of shape must match shape of coordinates"
+            if new_shape is not None:
+                fiber.getRankAttrs().setShape(new_shape)
 
         return None
 
-- 
2.43.0


From cf0bcc3ce8f85b070d0c0b55759d1f9560a293a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 09/44] fix: position assignment checks its key (order was not
 checked for negative positions, slices broke the fiber)

---
 fibertree/core/fiber.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 158b6c9..5552d75 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2093,7 +2093,13 @@ class Fiber:
 
         assert not self.isLazy()
 
-        position = key
+        if not isinstance(key, int):
+            raise TypeError("Fiber positions must be integers")
+
+        position = key + len(self.coords) if key < 0 else key
+
+        if not 0 <= position < len(self.coords):
+            raise IndexError("Fiber position out of range")
 
         #
         # TBD: Get isinstance of CoordPayload to work...
-- 
2.43.0


From 644925509f6dd65d361bd4f2dd7aebf3e47567ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 10/44] fix: insert rejects a coordinate a unique fiber already
 has

---
 fibertree/core/fiber.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 5552d75..6213b74 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1382,6 +1382,9 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insert() is deprecated use getPayloadRef()")
 
+        assert not self._unique or coord not in self.coords, \
+            "Illegal repeated coordinate"
+
         payload = Payload.maybe_box(value)
 
         try:
-- 
2.43.0


From 8221f683dd410ea4a59d832df6eef7127cccf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 11/44] fix: updatePayloads updates the payload it visited and
 boxes the result

---
 fibertree/core/fiber.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 6213b74..ca1ba28 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2583,8 +2583,11 @@ class Fiber:
                 p.updatePayloads(func, depth=depth - 1)
         else:
             # Update my payloads
-            for i, (c, p) in enumerate(self.iterOccupancy(tick=False)):
-                self.payloads[i] = func(i, c, p)
+            default = self.getDefault()
+
+            for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
+                if not Payload.isEmpty(p, default=default):
+                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
 
         return None
 
-- 
2.43.0


From 8c6ead0b00dbcef6e1d0bb40e1e4e135e0e82f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 12/44] fix: rank lists follow the sub-fibers that fiber
 mutators add, replace or drop

---
 fibertree/core/fiber.py     | 143 +++++++++++++++++++++++++++++-------
 fibertree/core/iterators.py |  16 ++--
 fibertree/core/rank.py      |  27 +++++++
 3 files changed, 152 insertions(+), 34 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index ca1ba28..b503701 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -245,6 +245,7 @@ class Fiber:
         # Owner rank... set later when fiber is appended to a rank
         #
         self.setOwner(None)
+        self._setListed(False)
 
         # Create a rank_attrs
         if rank_attrs is not None:
@@ -1358,23 +1359,22 @@ class Fiber:
 
         Fiber._deprecated("Fiber.insertOrLookup() is deprecated use getPayloadRef()")
 
+        index = next((x for x, val in enumerate(self.coords) if val >= coord),
+                     len(self.coords))
+
+        if self._coordExists(coord, index):
+            return self.payloads[index]
+
         if value is None:
-            value = self._createDefault()
+            return self._create_payload(coord, pos=index)
 
         payload = Payload.maybe_box(value)
 
-        index = 0
-        try:
-            index = next(x for x, val in enumerate(self.coords) if val >= coord)
-            if self.coords[index] == coord:
-                return self.payloads[index]
-            self.coords.insert(index, coord)
-            self.payloads.insert(index, payload)
-            return self.payloads[index]
-        except StopIteration:
-            self.coords.append(coord)
-            self.payloads.append(payload)
-            return self.payloads[-1]
+        self.coords.insert(index, coord)
+        self.payloads.insert(index, payload)
+        self._addToRank(payload)
+
+        return payload
 
 
     def insert(self, coord, value):
@@ -1395,6 +1395,8 @@ class Fiber:
             self.coords.append(coord)
             self.payloads.append(payload)
 
+        self._addToRank(payload)
+
         return None
 
 
@@ -1440,6 +1442,52 @@ class Fiber:
 
         return self._owner
 
+    def _setListed(self, listed):
+        """Record whether this fiber is in its owning rank's list of fibers
+
+        A default created just to be read reports its rank as its
+        owner, but it is not part of the rank's tree.
+
+        """
+
+        self._listed = listed
+
+
+    def _addToRank(self, payload):
+        """Enter a new payload, if it is a fiber, into the next rank
+
+        Everything below the payload is entered into the ranks below.
+
+        """
+
+        owner = self.getOwner()
+
+        if owner is None or owner.getNextRank() is None or not self._listed \
+                or not isinstance(payload, Fiber):
+            return
+
+        owner.getNextRank().append(payload)
+
+        for p in payload.payloads:
+            payload._addToRank(p)
+
+
+    def _removeFromRank(self, payload):
+        """Remove a dropped payload, if it is a fiber, from its rank
+
+        Everything below the payload is removed from the ranks below.
+
+        """
+
+        if not isinstance(payload, Fiber) or payload.getOwner() is None:
+            return
+
+        for p in payload.payloads:
+            payload._removeFromRank(p)
+
+        payload.getOwner().remove(payload)
+
+
     def setRankAttrs(self, attrs):
         """
         If the fiber does not have an owning rank, it can still have rank attributes
@@ -1598,6 +1646,11 @@ class Fiber:
 
         owner = self.getOwner()
 
+        #
+        # Only fibers listed by their rank have children listed by the next
+        #
+        addtorank = addtorank and self._listed
+
         default = self.getDefault()
 
         a_payload = (self.payloads or [None])[0]
@@ -2131,7 +2184,18 @@ class Fiber:
         # A payload of None just updates the coordinate
         #
         if payload is not None:
-            self.payloads[position] = Payload.maybe_box(payload)
+            self._setPayload(position, Payload.maybe_box(payload))
+
+
+    def _setPayload(self, position, payload):
+        """Replace the payload at a position"""
+
+        old = self.payloads[position]
+        self.payloads[position] = payload
+
+        if old is not payload:
+            self._removeFromRank(old)
+            self._addToRank(payload)
 
 
     def __len__(self):
@@ -2319,6 +2383,9 @@ class Fiber:
 
         """
 
+        for payload in self.payloads:
+            self._removeFromRank(payload)
+
         self.coords.clear()
         self.payloads.clear()
 
@@ -2368,6 +2435,7 @@ class Fiber:
 
         self.coords.append(coord)
         self.payloads.append(payload)
+        self._addToRank(payload)
 
 
     def extend(self, other):
@@ -2412,6 +2480,9 @@ class Fiber:
         self.coords.extend(other.coords)
         self.payloads.extend(other.payloads)
 
+        for payload in other.payloads:
+            self._addToRank(payload)
+
         return None
 
 
@@ -2587,7 +2658,7 @@ class Fiber:
 
             for i, (c, p) in enumerate(zip(self.coords, self.payloads)):
                 if not Payload.isEmpty(p, default=default):
-                    self.payloads[i] = Payload.maybe_box(func(i, c, p))
+                    self._setPayload(i, Payload.maybe_box(func(i, c, p)))
 
         return None
 
@@ -3027,14 +3098,19 @@ class Fiber:
         assert Payload.contains(other, Fiber)
         assert self._unique
 
+        if other is self:
+            return self
+
         if len(self.coords) != 0:
             #
             # Clear out any existing data
             #
-            self.coords = []
-            self.payloads = []
+            self.clear()
+
+        owner = self.getOwner()
+        if owner is None or owner.getNextRank() is None:
+            self._setDefault(other.getDefault())
 
-        self._setDefault(other.getDefault())
         for c, p in other:
             ref = self.getPayloadRef(c)
             ref <<= p
@@ -4567,15 +4643,28 @@ class Fiber:
     def updatePayloadsBelow(self, func, *args, depth=0, **kwargs):
         """updatePayloadsBelow
 
-        Utility function used as a closure on updatePayloads() to
-        change all the payloads in fibers at `depth` in the tree by
-        applying `func` with parameters *args and **kwargs to the
-        payloads.
+        Utility function to change all the payloads in fibers at
+        `depth` in the tree by applying `func` with parameters *args
+        and **kwargs to the payloads.
+
+        Note: `func` may change the number of levels in a payload, so
+        unlike updatePayloads() the new payloads are not entered into
+        the ranks of a tensor.
 
         """
 
-        update_lambda = lambda i, c, p: func(p, *args, **kwargs)
-        return self.updatePayloads(update_lambda, depth=depth)
+        assert not self.isLazy()
+
+        fibers = [self]
+        for _ in range(depth):
+            fibers = [p for fiber in fibers for p in fiber.payloads]
+
+        for fiber in fibers:
+            default = fiber.getDefault()
+
+            for i, p in enumerate(fiber.payloads):
+                if not Payload.isEmpty(p, default=default):
+                    fiber.payloads[i] = Payload.maybe_box(func(p, *args, **kwargs))
 
 
     splitUniformBelow = partialmethod(updatePayloadsBelow,
@@ -4633,7 +4722,7 @@ class Fiber:
         owners[None] = self.getOwner()
         self.setOwner(None)
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 owners[c] = p._detach_owner()
 
@@ -4644,7 +4733,7 @@ class Fiber:
         if owner is not None:
             self.setRankAttrs(copy.deepcopy(owner.getAttrs()))
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_attrs(owners[c])
 
@@ -4653,7 +4742,7 @@ class Fiber:
         """Reattach the owners to this fiber"""
         self.setOwner(owners[None])
 
-        for c, p in self.iterOccupancy(tick=False):
+        for c, p in zip(self.coords, self.payloads):
             if isinstance(p, Fiber):
                 p._attach_owner(owners[c])
 
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 4bdf7eb..0131dac 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1220,19 +1220,21 @@ def __lshift__(self, other, start_pos=None):
                         len(a_payload) == 0) or \
                         (not isinstance(a_payload, type(self.a_fiber)) and \
                         a_payload == self.a_fiber.getDefault()):
+                    # Make sure that the rank was not modified in the
+                    # middle, other than by changing the tree
+                    owner = self.a_fiber.getOwner()
+                    if owner is not None and owner.getNextRank() is not None:
+                        last = owner.getNextRank().getFibers()[-1]
+                        assert last is a_payload or any(p is last
+                            for f in owner.getFibers() for p in f.payloads)
+
                     # Clear the fiber
                     index = bisect.bisect_left(self.a_fiber.coords, b_coord)
                     del self.a_fiber.coords[index]
                     del self.a_fiber.payloads[index]
 
                     # Remove the payload from its owning rank (if relevant)
-                    if self.a_fiber.getOwner() is not None and \
-                            self.a_fiber.getOwner().getNextRank() is not None:
-                        popped = self.a_fiber.getOwner().getNextRank().pop()
-
-                        # Make sure that the rank was not modified in the
-                        # middle and we actually popped off the correct fiber
-                        assert id(a_payload) == id(popped)
+                    self.a_fiber._removeFromRank(a_payload)
 
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index d1f2c64..c813966 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -286,6 +286,9 @@ class Rank:
 
         """
 
+        for fiber in self.fibers:
+            fiber._setListed(False)
+
         self.fibers = []
 
     #
@@ -483,6 +486,7 @@ class Rank:
         # Add fiber to list of fibers of rank
         #
         self.fibers.append(fiber)
+        fiber._setListed(True)
 
     def pop(self):
         """
@@ -501,8 +505,31 @@ class Rank:
         """
         fiber = self.fibers.pop()
         fiber.setOwner(None)
+        fiber._setListed(False)
         return fiber
 
+    def remove(self, fiber):
+        """
+        Remove a fiber, if it is in the rank
+
+        Parameters
+        ----------
+
+        fiber: Fiber
+            The fiber to remove
+
+        Returns
+        _______
+
+        None
+        """
+        for i in range(len(self.fibers) - 1, -1, -1):
+            if self.fibers[i] is fiber:
+                del self.fibers[i]
+                fiber.setOwner(None)
+                fiber._setListed(False)
+                break
+
 #
 # Linked list methods
 #
-- 
2.43.0


From 56f51755160f5faf284b4adcee9f9f246f45751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 13/44] fix: populate leaves nothing behind at a coordinate the
 body left at the default (sub-fibers with only defaults, pre-existing empty
 sub-fibers)

---
 fibertree/core/iterators.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 0131dac..0e3c4db 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1133,7 +1133,6 @@ def __lshift__(self, other, start_pos=None):
                 b_traced = Metrics.isTraced(rank, b_trace)
 
             # Add coordinates/payloads to a_fiber where necessary
-            maybe_remove = False
             b = self.b_fiber.__iter__(tick=False)
 
             # Track the fiber position
@@ -1202,24 +1201,16 @@ def __lshift__(self, other, start_pos=None):
                 if new_a_payload:
                     # Do not actually insert the payload into the tensor
                     a_payload = self.a_fiber._create_payload(b_coord, pos=a_pos)
-                    maybe_remove = True
                     self.a_fiber.setSavedPos(a_pos)
 
                 # Read the a coordinate
                 elif a_read_traced:
                     Metrics.addUse(rank, b_coord, a_pos - len(to_insert), type_=a_read_trace)
-                    maybe_remove = False
-
-                else:
-                    maybe_remove = False
 
                 yield b_coord, (a_payload, b_payload)
 
-                # If this was never updated, remove it
-                if maybe_remove and (isinstance(a_payload, type(self.a_fiber)) and \
-                        len(a_payload) == 0) or \
-                        (not isinstance(a_payload, type(self.a_fiber)) and \
-                        a_payload == self.a_fiber.getDefault()):
+                # If this was left at the default, remove it
+                if Payload.isEmpty(a_payload, default=self.a_fiber.getDefault()):
                     # Make sure that the rank was not modified in the
                     # middle, other than by changing the tree
                     owner = self.a_fiber.getOwner()
-- 
2.43.0


From d8974a796aa315e63eedbabbd44d0920d5ab3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 14/44] fix: populate never saves a negative position

---
 fibertree/core/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 0e3c4db..a1ea947 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1230,7 +1230,7 @@ def __lshift__(self, other, start_pos=None):
                     # We did not actually insert anything, we need to undo the
                     # += 1 from later
                     a_pos -= 1
-                    self.a_fiber.setSavedPos(a_pos)
+                    self.a_fiber.setSavedPos(max(a_pos, 0))
 
                 # If this is a new payload, we may have to track the
                 # insert/append
-- 
2.43.0


From fc79f4daba20ebd82ae09aacdb737d987248585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 15/44] fix: project accepts every start position that lies
 before the interval in projected coordinates

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b503701..b61cdbd 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1277,7 +1277,7 @@ class Fiber:
 
             if interval is not None:
                 assert start_pos == 0 \
-                    or fiber.coords[start_pos - 1] < interval[0]
+                    or trans_fn(fiber.coords[start_pos - 1]) < interval[0]
 
         # Build the iterator
         class project_iterator:
-- 
2.43.0


From 3afde7b4caa44449267f779ddc4c58fb928a4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 16/44] fix: fiber equality compares content, not the elements
 an uncompressed rank presents

---
 fibertree/core/fiber.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b61cdbd..c1b6b7c 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -14,7 +14,7 @@ import bisect
 import copy
 import sys
 from functools import partialmethod
-from itertools import product
+from itertools import product, zip_longest
 
 import numbers
 import pickle
@@ -4759,14 +4759,15 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        for c, (mask, ps, po) in self | other:
-            if mask == "A":
-                return False
+        # Only the non-empty elements count, whatever the format of the rank
+        elements = zip_longest(self.iterOccupancy(tick=False),
+                               other.iterOccupancy(tick=False))
 
-            if mask == "B":
+        for es, eo in elements:
+            if es is None or eo is None:
                 return False
 
-            if mask == "AB" and ps != po:
+            if es.coord != eo.coord or es.payload != eo.payload:
                 return False
 
         return True
-- 
2.43.0


From 1c09a4174443fe4ebb1e5e9d0165cc4b6f717200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 17/44] fix: the active range of a split with relative
 coordinates is relative too

---
 fibertree/core/fiber.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index c1b6b7c..4222b33 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3612,6 +3612,11 @@ class Fiber:
 
                 range_start = max(part, self.fiber.getActive()[0])
                 range_end = min(part + self.step, self.fiber.getActive()[1])
+
+                if relativeCoords:
+                    range_start -= part
+                    range_end -= part
+
                 active_range = (range_start, range_end)
 
                 return part, coords, payloads, active_range
@@ -3796,6 +3801,11 @@ class Fiber:
 
                 range_start = max(self.splits[ind], self.fiber.getActive()[0])
                 range_end = min(self.splits[ind + 1], self.fiber.getActive()[1])
+
+                if relative:
+                    range_start -= self.splits[ind]
+                    range_end -= self.splits[ind]
+
                 active_range = (range_start, range_end)
 
                 return self.splits[ind], coords, payloads, active_range
-- 
2.43.0


From 28747cdbf640de2f026fd29eea88f859e1f4a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 18/44] fix: splits with halos accept elements that belong to
 no active partition

---
 fibertree/core/fiber.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 4222b33..f390338 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3601,7 +3601,8 @@ class Fiber:
 
                         part += self.step
 
-                    search_start = min(inds)
+                    if inds:
+                        search_start = min(inds)
 
                 for uc, lc, lp in zip(upper_coords, lower_coords, lower_payloads):
                     yield self.build_elem(uc, lc, lp)
@@ -3784,7 +3785,8 @@ class Fiber:
 
                         i += 1
 
-                    search_start = min(inds)
+                    if inds:
+                        search_start = min(inds)
 
                 for i, (lc, lp) in enumerate(zip(lower_coords, lower_payloads)):
                     if lc:
-- 
2.43.0


From 443326acb3ee1d84afb6ad64da2fc08a4cb84f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 19/44] fix: splitUnEqual with an empty size list keeps the
 remainder

---
 fibertree/core/fiber.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f390338..3c69cf1 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3941,12 +3941,12 @@ class Fiber:
                 j = 0
                 base = 0
                 for i, (c, _) in enumerate(fiber.iterActive(tick=False)):
-                    if j == len(sizes):
-                        break
-
                     if i == 0:
                         splits.append(fiber.getActive()[0])
 
+                    elif j == len(sizes):
+                        break
+
                     elif i - base == sizes[j]:
                         base = i
                         j += 1
-- 
2.43.0


From b48bc6a964b34bfc8e11cbb5ee0f3bc7529269c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:46 +0000
Subject: [PATCH 20/44] fix: partitions that share halo elements do not share
 payload objects

---
 fibertree/core/fiber.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 3c69cf1..530a55a 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4046,7 +4046,19 @@ class Fiber:
                       active_range=self.getActive(),
                       shape=shape)
 
+        seen = set()
+
         for part, coords, payloads, active_range in splitter(self):
+            # An element of a halo is in more than one partition: each
+            # partition has its own copy
+            for i, p in enumerate(payloads):
+                if id(p) in seen and isinstance(p, Fiber):
+                    payloads[i] = p.copy(preserve_owner=False)
+                elif id(p) in seen:
+                    payloads[i] = copy.deepcopy(p)
+                else:
+                    seen.add(id(p))
+
             lower = Fiber(coords=coords,
                           payloads=payloads,
                           active_range=active_range,
-- 
2.43.0


From 4874ec526f85deb4182f00e827fbd6ea8837c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:52 +0000
Subject: [PATCH 21/44] fix: the active range of the upper level of a split
 covers every partition

---
 fibertree/core/fiber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 530a55a..647b5a8 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4068,6 +4068,11 @@ class Fiber:
             upper.coords.append(part)
             upper.payloads.append(lower)
 
+        # The first partition may start before the active range
+        start, end = upper.getActive()
+        if upper.coords and upper.coords[0] < start:
+            upper.setActive((upper.coords[0], end))
+
         return upper
 
 #
-- 
2.43.0


From c018dc38b040f858fc76f4b0249ce1bb07113c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 22/44] fix: a split below the top rank also splits sub-fibers
 that hold only default values

---
 fibertree/core/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 647b5a8..38eb754 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4692,7 +4692,7 @@ class Fiber:
             default = fiber.getDefault()
 
             for i, p in enumerate(fiber.payloads):
-                if not Payload.isEmpty(p, default=default):
+                if isinstance(p, Fiber) or p != default:
                     fiber.payloads[i] = Payload.maybe_box(func(p, *args, **kwargs))
 
 
-- 
2.43.0


From 529a14d80b5932540de7c07c8d8d15e3a8ff79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 23/44] fix: swapping and unflattening ranks of empty
 (sub-)fibers, and unflattening without an authoritative shape

---
 fibertree/core/fiber.py  | 26 +++++++++++++++++++-------
 fibertree/core/tensor.py | 31 +++++++++++++------------------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 38eb754..b5bde83 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4156,6 +4156,15 @@ class Fiber:
 
         """
 
+        # Make sure that the fiber has at least one coordinate
+        assert not self.isLazy()
+        assert len(self.coords) > 0
+
+        return self._swapRanksHelper()
+
+    def _swapRanksHelper(self):
+        """Swap the (highest) two ranks of a fiber, which may be empty"""
+
         assert not self.isLazy()
         assert self._ordered and self._unique
 
@@ -4166,11 +4175,8 @@ class Fiber:
         # does the deepcopy for us
         flattened = self.flattenRanks(style="pair")
 
-        # Make sure that the flattened fiber has at least one coordinate
-        assert(len(flattened.coords) > 0)
-
-        # Make sure the coord is a >=2-element tuple
-        assert(len(flattened.coords[0]) >= 2)
+        # Make sure the coords (if any) are >=2-element tuples
+        assert(all(len(c) >= 2 for c in flattened.coords[:1]))
 
         #
         # Sort on secord coordinate of flattened fiber
@@ -4517,9 +4523,15 @@ class Fiber:
         """
 
         assert not self.isLazy()
-        assert isinstance(self.coords[0], tuple)
+        assert not self.coords or isinstance(self.coords[0], tuple)
         assert self._ordered and self._unique
 
+        #
+        # A fiber without elements unflattens to a fiber without elements
+        #
+        if not self.coords:
+            return Fiber([], [], default=Fiber)
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4709,7 +4721,7 @@ class Fiber:
                                       splitUnEqual)
 
     swapRanksBelow = partialmethod(updatePayloadsBelow,
-                                   swapRanks)
+                                   _swapRanksHelper)
 
     flattenRanksBelow = partialmethod(updatePayloadsBelow,
                                       flattenRanks)
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2a3b92d..02cc747 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1546,13 +1546,9 @@ class Tensor:
         #
         shape = None
 
-        # Only call Fiber.swapRanks if there are actually payloads to swap
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.swapRanks,
-                                    Fiber.swapRanksBelow,
-                                    depth=depth)
-        else:
-            root = copy.deepcopy(self.getRoot())
+        root = self._modifyRoot(Fiber._swapRanksHelper,
+                                Fiber.swapRanksBelow,
+                                depth=depth)
 
         #
         # Create Tensor from rank_ids and root fiber
@@ -1771,16 +1767,10 @@ class Tensor:
 
         rank_ids, shape = self._unflattenRankIdsShape(depth, levels, style)
 
-        #
-        # Call Fiber.unflattenRanks if there are actually ranks to unflatten
-        #
-        if not all(fiber.isEmpty() for fiber in self.ranks[depth].fibers):
-            root = self._modifyRoot(Fiber.unflattenRanks,
-                                    Fiber.unflattenRanksBelow,
-                                    depth=depth,
-                                    levels=levels)
-        else:
-            root = Fiber()
+        root = self._modifyRoot(Fiber.unflattenRanks,
+                                Fiber.unflattenRanksBelow,
+                                depth=depth,
+                                levels=levels)
 
         #
         # Create Tensor from rank_ids and root fiber
@@ -1825,7 +1815,12 @@ class Tensor:
         #
         # Create new shape list
         #
-        shape = copy.deepcopy(self.getShape())
+        # Note: The shape is only known if it is authoritative
+        #
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+
+        if shape is None:
+            return rank_ids, None
 
         for d in range(levels):
             s = shape[depth + d]
-- 
2.43.0


From 6e849dbfddd744dc7780757c4ff5c9f32ebb9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 24/44] fix: swapRanks keeps the shape and unflattenRanks the
 default of the operand

---
 fibertree/core/tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 02cc747..2d274d2 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1542,9 +1542,9 @@ class Tensor:
         #
         # Create new shape list
         #
-        # TBD: Create shape
-        #
-        shape = None
+        shape = copy.deepcopy(self.getShape(authoritative=True))
+        if shape:
+            shape[depth], shape[depth + 1] = shape[depth + 1], shape[depth]
 
         root = self._modifyRoot(Fiber._swapRanksHelper,
                                 Fiber.swapRanksBelow,
@@ -1779,6 +1779,7 @@ class Tensor:
         tensor.setName(self.getName() + "+unflattened")
         tensor.setColor(self.getColor())
         tensor.setMutable(self.isMutable())
+        tensor.setDefault(self.getDefault())
 
         # Maintain the formats for all untouched rank_ids
         # Compress everything else
-- 
2.43.0


From 2b221667185c44acbd76302b13675aedd1df4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 25/44] fix: merging ranks copes with empty sub-fibers and
 uncompressed ranks

---
 fibertree/core/fiber.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b5bde83..133af33 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4387,6 +4387,14 @@ class Fiber:
                 cur_payloads.append(p._mergeRanksHelper(
                                         levels=levels - 1, style=style, merge_fn=merge_fn))
 
+        for p1 in cur_payloads:
+            if not Payload.contains(p1, Fiber):
+                raise PayloadError
+
+        # An empty fiber may know less about the merged ranks than a fiber with
+        # elements, so learn about them from the latter (if there are any)
+        lowers = [p1 for p1 in cur_payloads if p1.coords] or cur_payloads[:1]
+
         coords = []
         payloads = []
 
@@ -4397,10 +4405,7 @@ class Fiber:
         up_shape = self.getShape(all_ranks=False, authoritative=True)
         low_shape = None
 
-        for i, (c1, p1) in enumerate(zip(self.coords, cur_payloads)):
-            if not Payload.contains(p1, Fiber):
-                raise PayloadError
-
+        for i, p1 in enumerate(lowers):
             if i == 0:
                 range_start, range_end = p1.getActive()
             else:
@@ -4410,7 +4415,9 @@ class Fiber:
             default = p1.getDefault()
 
             low_shape = p1.getShape(all_ranks=False, authoritative=True)
-            for c0, p0 in p1:
+
+        for c1, p1 in zip(self.coords, cur_payloads):
+            for c0, p0 in p1.iterOccupancy(tick=False):
                 new_coord = self._flattenCoords(c1,
                                                 c0,
                                                 style=style,
-- 
2.43.0


From 436c068454cf0b63e6b378256271f5afa52190de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 26/44] fix: merging sub-fibers applies the merge function to
 existing payloads only

---
 fibertree/core/fiber.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 133af33..a065c36 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4484,16 +4484,21 @@ class Fiber:
             return merge_fn(to_merge)
 
         # Merge fibers together
-        coords = []
-        payloads = []
-        union_fiber = union(*to_merge)
-        for c, ps in union_fiber:
-            coords.append(c)
-            new_merge = Payload.get(ps)[1:]
-            payloads.append(Fiber._mergeToFibertree(new_merge, merge_fn))
+        #
+        # Note: Only the payloads that exist at a coordinate are merged
+        groups = {}
+        for fiber in to_merge:
+            for c, p in fiber.iterOccupancy(tick=False):
+                groups.setdefault(c, []).append(p)
 
-        result = Fiber(coords, payloads, active_range=union_fiber.getActive())
-        return result
+        coords = sorted(groups)
+        payloads = [Fiber._mergeToFibertree(groups[c], merge_fn) for c in coords]
+
+        active_ranges = [fiber.getActive() for fiber in to_merge]
+        active_range = (min(start for start, _ in active_ranges),
+                        max(end for _, end in active_ranges))
+
+        return to_merge[0]._newFiber(coords, payloads, active_range=active_range)
 
 
     def unflattenRanks(self, levels=1):
@@ -5090,7 +5095,8 @@ class Fiber:
                   initial=None,
                   max_coord=None,
                   ordered=None,
-                  unique=None):
+                  unique=None,
+                  active_range=None):
         """Create a new fiber carrying over attributes from `self`
 
         Note: Input parameters must be kept in sync with `__init__`,
@@ -5118,7 +5124,8 @@ class Fiber:
                      initial=initial,
                      max_coord=max_coord,
                      ordered=ordered,
-                     unique=unique)
+                     unique=unique,
+                     active_range=active_range)
 
 
     def _coord2pos(self, coord, start_pos=None, coords=None):
-- 
2.43.0


From dc108d08cc3f01465a4661e7b50763fb9a177d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 27/44] fix: swizzling tensors with flattened ranks or elements
 outside the active range; shape of a re-flattened rank

---
 fibertree/core/tensor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 2d274d2..07c9bac 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1395,7 +1395,7 @@ class Tensor:
         """
         # Ensure that these old and new rank_ids are permutations of each other
         old_rank_ids = self.getRankIds()
-        assert sorted(old_rank_ids) == sorted(rank_ids)
+        assert sorted(map(str, old_rank_ids)) == sorted(map(str, rank_ids))
 
         old_name = self.getName()
         copied = copy.deepcopy(self)
@@ -1421,7 +1421,8 @@ class Tensor:
         frontier = [(copied.getRoot(), None, None, -1)]
         frontier_coords = [None] * swiz_len
 
-        ranges = {rank: set() for rank in old_rank_ids}
+        # Note: The id of a flattened rank is a list
+        ranges = {str(rank): set() for rank in old_rank_ids}
 
         # Depth-first search through the fibertree and extract the coordinate
         # payload pairs
@@ -1431,7 +1432,7 @@ class Tensor:
                 frontier_coords[depth] = coord
 
             if parent is not None:
-                ranges[parent.getRankAttrs().getId()].add(parent.getActive())
+                ranges[str(parent.getRankAttrs().getId())].add(parent.getActive())
 
             # If this is the last point we need to swizzle, save the payload
             if depth == swiz_len - 1:
@@ -1492,14 +1493,14 @@ class Tensor:
         while frontier:
             fiber = frontier.pop()
             rank = fiber.getRankAttrs().getId()
-            rank_ranges = ranges[rank]
+            rank_ranges = ranges[str(rank)]
 
             if not fiber.isEmpty() and rank_ranges:
                 starts = [range_[0] for range_ in rank_ranges if range_[0] <= fiber.coords[0] and range_[1] > fiber.coords[0]]
-                start = min(starts)
+                start = min(starts, default=fiber.coords[0])
 
                 ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
-                end = max(ends)
+                end = max(ends, default=Fiber._nextCoord(fiber.coords[-1]))
 
                 fiber.setActive((start, end))
 
@@ -1689,7 +1690,7 @@ class Tensor:
 
                 # Shape: [S0, S1, ... SN] -> (S0, S1, ... SN)
                 elif coord_style == "tuple":
-                    curr_shape += (shape,)
+                    curr_shape += shape if isinstance(shape, tuple) else (shape,)
                     if i == depth + levels:
                         new_shape.append(curr_shape)
 
-- 
2.43.0


From 4b7d054c6949b6588de898d2c0fab39965251d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 28/44] fix: active range of merged ranks covers their
 coordinates

---
 fibertree/core/fiber.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index a065c36..edc5724 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4440,15 +4440,8 @@ class Fiber:
         elif up_shape and low_shape:
             if style == "linear":
                 shape = up_shape * low_shape
-            elif style == "pair":
-                shape = (up_shape, low_shape)
-            elif style == "tuple":
-                if isinstance(low_shape, tuple):
-                    shape = (up_shape,) + low_shape
-                else:
-                    shape = (up_shape, low_shape)
-
-
+            elif style == "pair" or style == "tuple":
+                shape = self._flattenCoords(up_shape, low_shape, style=style)
 
         # Compute the active range
         active_range = None
@@ -4457,12 +4450,19 @@ class Fiber:
             range_start = 0
             range_end = float("inf")
 
+        up_start, up_end = self.getActive()
+
         if style == "tuple" or style == "pair":
-            active_range = ((self.getActive()[0], range_start), (self.getActive()[1], range_end))
-        elif style == "relative":
-            active_range = self.getActive()
-        elif style == "absolute":
-            active_range = self.getActive()
+            active_range = (self._flattenCoords(up_start, range_start, style=style),
+                            self._flattenCoords(up_end, range_end, style=style))
+        elif style == "relative" or style == "absolute":
+            # Usually the upper rank is the result of a split, so it has the
+            # range of the merged rank. Otherwise include all the coordinates
+            if coords:
+                up_start = min(up_start, coords[0])
+                up_end = max(up_end, Fiber._nextCoord(coords[-1]))
+
+            active_range = (up_start, up_end)
         elif style == "linear":
             active_range = (0, float("inf"))
 
-- 
2.43.0


From f36419340af538a62b522b85626f4bec78b4f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 29/44] fix: equality of unordered fibers and value count of
 rank-0 tensors

---
 fibertree/core/fiber.py  | 14 ++++++++++----
 fibertree/core/tensor.py |  8 +++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index edc5724..164ee8c 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -4812,11 +4812,17 @@ class Fiber:
         if not isinstance(other, Fiber):
             return False
 
-        # Only the non-empty elements count, whatever the format of the rank
-        elements = zip_longest(self.iterOccupancy(tick=False),
-                               other.iterOccupancy(tick=False))
+        def elements(fiber):
+            # Only the non-empty elements count, whatever the format of the
+            # rank or the order they are stored in
+            occupancy = fiber.iterOccupancy(tick=False)
 
-        for es, eo in elements:
+            if fiber.isOrdered():
+                return occupancy
+
+            return sorted(occupancy, key=lambda element: element.coord)
+
+        for es, eo in zip_longest(elements(self), elements(other)):
             if es is None or eo is None:
                 return False
 
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index 07c9bac..a16f8c9 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1128,7 +1128,13 @@ class Tensor:
         fiber of the tensor. See `Fiber.countValues()` for details.
 
         """
-        return self.getRoot().countValues()
+        root = self.getRoot()
+
+        if isinstance(root, Payload):
+            # A rank-0 tensor holds just one value
+            return 0 if Payload.isEmpty(root) else 1
+
+        return root.countValues()
 
 
     def __iter__(self):
-- 
2.43.0


From 12ce15800833ea4658fa8098aac4a82b5f5a04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 30/44] fix: payload and element operators: reflected and
 in-place division and logical forms, element assignment replaces the value
 and keeps the element

---
 fibertree/core/coord_payload.py | 85 ++++++++++++++++++++++++++++++---
 fibertree/core/payload.py       | 54 +++++++++++++++++++++
 2 files changed, 132 insertions(+), 7 deletions(-)

diff --git a/fibertree/core/coord_payload.py b/fibertree/core/coord_payload.py
index eb81233..4eef392 100644
--- a/fibertree/core/coord_payload.py
+++ b/fibertree/core/coord_payload.py
@@ -230,7 +230,9 @@ class CoordPayload():
         if isinstance(other, CoordPayload):
             self.payload <<= other.payload
         else:
-            self.payload <<= self.payload + other
+            self.payload <<= other
+
+        return self
 
 
     #
@@ -311,8 +313,8 @@ class CoordPayload():
 
         return self
 
-    def __div__(self, other):
-        """__div__"""
+    def __truediv__(self, other):
+        """__truediv__"""
 
         if isinstance(other, CoordPayload):
             ans = self.payload / other.payload
@@ -321,13 +323,13 @@ class CoordPayload():
 
         return ans
 
-    def __rdiv__(self, other):
-        """__rdiv__"""
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
 
         return other / self.payload
 
-    def __idiv__(self, other):
-        """__idiv__"""
+    def __itruediv__(self, other):
+        """__itruediv__"""
 
         if isinstance(other, CoordPayload):
             self.payload /= other.payload
@@ -389,6 +391,75 @@ class CoordPayload():
 
         return self.payload != other
 
+#
+# Logical operations
+#
+
+    def __and__(self, other):
+        """__and__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload & other.payload
+        else:
+            ans = self.payload & other
+
+        return ans
+
+    def __rand__(self, other):
+        """__rand__"""
+
+        return other & self.payload
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload &= other.payload
+        else:
+            self.payload &= other
+
+        return self
+
+    def __or__(self, other):
+        """__or__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload | other.payload
+        else:
+            ans = self.payload | other
+
+        return ans
+
+    def __ror__(self, other):
+        """__ror__"""
+
+        return other | self.payload
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, CoordPayload):
+            self.payload |= other.payload
+        else:
+            self.payload |= other
+
+        return self
+
+    def __lshift__(self, other):
+        """__lshift__"""
+
+        if isinstance(other, CoordPayload):
+            ans = self.payload << other.payload
+        else:
+            ans = self.payload << other
+
+        return ans
+
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        return other << self.payload
+
     #
     # Copy operation
     #
diff --git a/fibertree/core/payload.py b/fibertree/core/payload.py
index 72b425e..4db1e80 100644
--- a/fibertree/core/payload.py
+++ b/fibertree/core/payload.py
@@ -478,6 +478,9 @@ class Payload:
 
         if isinstance(other, Payload):
             self.value = other.value
+        elif type(other).__name__ == "CoordPayload":
+            # Assign the value of an element of a fiber
+            self.value = other.payload
         else:
             self.value = other
         return self
@@ -534,6 +537,21 @@ class Payload:
 
         return Payload(ans)
 
+    def __rtruediv__(self, other):
+        """__rtruediv__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other / self.value)
+
+    def __itruediv__(self, other):
+        """__itruediv__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value / other.value
+        else:
+            self.value = self.value / other
+        return self
+
     def __rmul__(self, other):
         """__rmul__"""
 
@@ -628,6 +646,21 @@ class Payload:
 
         return Payload(ans)
 
+    def __rand__(self, other):
+        """__rand__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other & self.value)
+
+    def __iand__(self, other):
+        """__iand__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value & other.value
+        else:
+            self.value = self.value & other
+        return self
+
 
     def __or__(self, other):
         """__or__"""
@@ -639,6 +672,21 @@ class Payload:
 
         return Payload(ans)
 
+    def __ror__(self, other):
+        """__ror__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other | self.value)
+
+    def __ior__(self, other):
+        """__ior__"""
+
+        if isinstance(other, Payload):
+            self.value = self.value | other.value
+        else:
+            self.value = self.value | other
+        return self
+
 
     def __lshift__(self, other):
         """__lshift__"""
@@ -650,6 +698,12 @@ class Payload:
 
         return Payload(ans)
 
+    def __rlshift__(self, other):
+        """__rlshift__"""
+
+        assert not isinstance(other, Payload)
+        return Payload(other << self.value)
+
 #
 # Copy operation
 #
-- 
2.43.0


From 21dc977ff1f8dde25e39397e2ad1b84c11d48ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 31/44] fix: in-place fiber arithmetic leaves the content its
 value-returning form has; scalar arithmetic on fibers of fibers

---
 fibertree/core/fiber.py | 42 +++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 164ee8c..b80408e 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -3181,7 +3181,7 @@ class Fiber:
         else:
             for c, p in self.iterShape():
                 coords.append(c)
-                payloads.append(other + p.value)
+                payloads.append(other + (p if isinstance(p, Fiber) else p.value))
 
         return self._newFiber(coords, payloads)
 
@@ -3255,8 +3255,19 @@ class Fiber:
         # If `other` is a fiber add each element of `other` to `self`
         #
         if isinstance(other, Fiber):
-            for _, (self_ref, other_val) in self << other:
-                self_ref += other_val
+            for c, (mask, self_val, other_val) in list(self | other):
+                if mask == "A" and not isinstance(other_val, Fiber) and other_val == 0:
+                    # There is nothing to add
+                    continue
+
+                self_ref = self.getPayloadRef(c)
+
+                if mask == "B" and isinstance(other_val, Fiber):
+                    # A new fiber only knows about the ranks below when assigned
+                    self_ref <<= self_val + other_val
+                else:
+                    self_ref += other_val
+
             return self
 
         #
@@ -3318,9 +3329,9 @@ class Fiber:
                 coords.append(c)
                 payloads.append(a_val * b_val)
         else:
-            for c, p in self:
+            for c, p in self.iterOccupancy():
                 coords.append(c)
-                payloads.append(other * p.value)
+                payloads.append(other * (p if isinstance(p, Fiber) else p.value))
 
         result = self._newFiber(coords, payloads)
         return result
@@ -3388,21 +3399,36 @@ class Fiber:
         # If `other` is a fiber, elementwise multiply `other` by `self`
         #
         if isinstance(other, Fiber):
-            for c, (self_val, other_val) in self & other:
+            products = set()
+
+            for c, (_, other_val) in list(self & other):
                 #
                 # Get a reference to the c coordinate in `self`.  Note
                 # that is may be a zero and therefore a hard zero will
                 # be included in the final fiber.
                 #
                 self_ref = self.getPayloadRef(c)
-                self_ref <<= self_val * other_val
+                self_ref *= other_val
+
+                products.add(c)
+
+            #
+            # Drop the elements that are not in the intersection
+            #
+            elements = list(zip(self.coords, self.payloads))
+            self.coords[:] = [c for c, _ in elements if c in products]
+            self.payloads[:] = [p for c, p in elements if c in products]
+
+            for c, p in elements:
+                if c not in products:
+                    self._removeFromRank(p)
 
             return self
 
         #
         # Othewise multiply `other` to each element of `self`
         #
-        for _, p in self:
+        for _, p in self.iterOccupancy():
             p *= other
 
         return self
-- 
2.43.0


From fad7351d27f4db9bf0e84166c5cd967b659d26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 32/44] fix: conversions keep shape, default, name and tuple
 coordinates; uncompressing empty fibers; random values never equal the
 default

---
 fibertree/core/fiber.py  | 102 ++++++++++++++++++++++++++++++++-------
 fibertree/core/tensor.py |  36 ++++++++++----
 2 files changed, 110 insertions(+), 28 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index b80408e..cef43ad 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -50,6 +50,21 @@ class PayloadError(Exception):
     pass
 
 
+#
+# Define a YAML loader that is safe but accepts tuples (e.g., as coordinates)
+#
+class FiberLoader(yaml.SafeLoader):
+    """FiberLoader"""
+
+    def construct_tuple(self, node):
+        """construct_tuple"""
+
+        return tuple(self.construct_sequence(node, deep=True))
+
+
+FiberLoader.add_constructor('tag:yaml.org,2002:python/tuple',
+                            FiberLoader.construct_tuple)
+
 #
 # Define the fiber class
 #
@@ -382,6 +397,12 @@ class Fiber:
         #
         if f is None:
             # Return something for an entirely empty input
+            #
+            # Note: the default of an upper rank is an empty fiber that knows
+            #       about the ranks below it
+            if isinstance(payload_list[0], list):
+                default = Fiber.fromUncompressed(payload_list[0], default=default)
+
             return Fiber([], [], shape=len(payload_list), default=default)
 
         return f
@@ -500,6 +521,11 @@ class Fiber:
             if random.random() < density[0]:
                 if len(shape) == 1:
                     payload = random.randint(1, interval)
+
+                    # The default cannot be used as a value, so use the next
+                    # value in the interval (if there is one)
+                    if payload == default:
+                        payload = payload % interval + 1
                     if payload == default:
                         continue
                 else:
@@ -2744,6 +2770,11 @@ class Fiber:
                         else:
                             rest[i] = max(rest[i], ns)
 
+                # With no elements the default may know the lower ranks
+                default = self.getRankAttrs().getDefault()
+                if not rest and isinstance(default, Fiber):
+                    rest = default.getShape(all_ranks=all_ranks, authoritative=authoritative)
+
                 shape = [shape] + rest
 
 
@@ -3019,6 +3050,11 @@ class Fiber:
         if shape is None:
             shape = self.getShape(all_ranks=True)
 
+        return self._uncompress(shape, level, self._leafDefault())
+
+    def _uncompress(self, shape, level, default):
+        """Uncompress, given the default value at the leaves"""
+
         f = []
 
         shape_fiber = Fiber(coords=list(range(shape[level])), initial=1)
@@ -3026,39 +3062,69 @@ class Fiber:
 
             if (mask == "AB"):
                 if Payload.contains(p, Fiber):
-                    f.append(Payload.get(p).uncompress(shape, level + 1))
+                    f.append(Payload.get(p)._uncompress(shape, level + 1, default))
                 else:
                     f.append(Payload.get(p))
 
             if (mask == "B"):
-                f.append(self._fillempty(shape, level + 1))
+                f.append(Fiber._fillempty(shape, level + 1, default))
 
         return f
 
 
-    def _fillempty(self, shape, level):
+    @staticmethod
+    def _fillempty(shape, level, default):
         """Recursive fill empty"""
 
         if level + 1 > len(shape):
-            #
-            # Find a fiber at the leaf level
-            #
-            f = self
-            while isinstance(f.payloads[0], Fiber):
-                f = f.payloads[0]
-
-            #
-            # Use the **unboxed** default from the leaf level fiber
-            #
-            return Payload.get(f.getDefault())
+            return default
 
         f = []
 
         for i in range(shape[level]):
-            f.append(self._fillempty(shape, level + 1))
+            f.append(Fiber._fillempty(shape, level + 1, default))
 
         return f
 
+    def _leafDefault(self):
+        """The **unboxed** default value at the leaves of the fibertree
+
+        If nothing in the tree knows that default, it is zero.
+
+        """
+
+        #
+        # If we have an owner, the lowest rank knows
+        #
+        owner = self.getOwner()
+
+        if owner is not None:
+            while owner.getNextRank() is not None:
+                owner = owner.getNextRank()
+
+            return Payload.get(owner.getDefault())
+
+        #
+        # Otherwise, look for a fiber at the leaf level
+        #
+        stack = [self]
+
+        while stack:
+            f = stack.pop()
+
+            if f.payloads and isinstance(f.payloads[0], Fiber):
+                stack.extend(reversed(f.payloads))
+                continue
+
+            default = Payload.get(f.getDefault())
+
+            if isinstance(default, Fiber):
+                stack.append(default)
+            elif not callable(default):
+                return default
+
+        return 0
+
 #
 # Arithmetic operations
 #
@@ -5031,7 +5097,7 @@ class Fiber:
 
         with open(yamlfile, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FiberLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
@@ -5097,7 +5163,7 @@ class Fiber:
             #
             # Turn into a fiber
             #
-            subtree = Fiber(coords=f_coords, payloads=f_payloads)
+            subtree = Fiber(coords=list(f_coords), payloads=f_payloads)
         else:
             # Got scalars, so format is unchanged
             subtree = y_payload_dict
@@ -5111,7 +5177,7 @@ class Fiber:
         assert not self.isLazy()
 
         f = {'fiber':
-             {'coords': self.coords,
+             {'coords': list(self.coords),
               'payloads': [Payload.payload2dict(p) for p in self.payloads]}}
 
         return f
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index a16f8c9..ec77f7b 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -15,7 +15,7 @@ import yaml
 from copy import deepcopy
 
 from .rank    import Rank
-from .fiber   import Fiber
+from .fiber   import Fiber, FiberLoader
 from .payload import Payload
 
 #
@@ -136,13 +136,16 @@ class Tensor:
         if (yamlfile != ""):
             assert(rank_ids is None and shape is None)
 
-            (rank_ids, root, shape, name) = self.parse(yamlfile)
+            (rank_ids, root, shape, name, default) = self.parse(yamlfile, default)
 
-            if shape is None:
+            if shape is None and isinstance(root, Fiber):
                 shape = root.estimateShape()
 
             self.setRankInfo(rank_ids, shape, default)
-            self.setRoot(root)
+            if isinstance(root, Fiber):
+                self.setRoot(root)
+            else:
+                self._root = Payload(root)
             self.setName(name)
             self.setColor(color)
             self.setMutable(False)
@@ -235,7 +238,7 @@ class Tensor:
         YAML file does not provide a non-zero default value
 
         """
-        (rank_ids, root, shape, name) = Tensor.parse(yamlfile)
+        (rank_ids, root, shape, name, default) = Tensor.parse(yamlfile)
 
         if not isinstance(root, Fiber):
             t = Tensor(rank_ids=[], shape=shape, name=name)
@@ -243,7 +246,11 @@ class Tensor:
             t._root = Payload(root)
             return t
 
-        return Tensor.fromFiber(rank_ids, root, shape=shape)
+        return Tensor.fromFiber(rank_ids,
+                                root,
+                                shape=shape,
+                                name=name,
+                                default=default)
 
 
     @classmethod
@@ -281,7 +288,7 @@ class Tensor:
 
         if not isinstance(root, list):
             # Handle a rank zero tensor
-            t = Tensor(rank_ids=[], shape=[])
+            t = Tensor(rank_ids=[], shape=[], name=name, color=color)
             t._root = Payload(root)
             return t
 
@@ -1945,12 +1952,12 @@ class Tensor:
 #
 
     @staticmethod
-    def parse(file):
+    def parse(file, default=0):
         """Parse a yaml file containing a tensor"""
 
         with open(file, 'r') as stream:
             try:
-                y_file = yaml.safe_load(stream)
+                y_file = yaml.load(stream, Loader=FiberLoader)
             except yaml.YAMLError as exc:
                 print(exc)
                 exit(1)
@@ -2005,7 +2012,12 @@ class Tensor:
         #
         fiber = Fiber.dict2fiber(y_root[0])
 
-        return (rank_ids, fiber, shape, name)
+        #
+        # Get the default, if it was not the usual one
+        #
+        default = y_tensor.get('default', default)
+
+        return (rank_ids, fiber, shape, name, default)
 
 
     def dump(self, filename):
@@ -2024,6 +2036,10 @@ class Tensor:
                         'name': self.getName(),
                         'root': [root_dict]}}
 
+        # The usual default is implicit
+        if isinstance(root, Fiber) and self.getDefault() != 0:
+            tensor_dict['tensor']['default'] = Payload.get(self.getDefault())
+
         with open(filename, 'w') as file:
             yaml.dump(tensor_dict, file)
 
-- 
2.43.0


From dcdc2049acaeeb1284357965f550806025881211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 33/44] fix: swizzle keeps formats and mutability; updated
 coordinates keep shape and active range; shapes of tuple coordinates and
 unflattened fibers

---
 fibertree/core/fiber.py  | 72 ++++++++++++++++++++++++++++++++++------
 fibertree/core/rank.py   |  8 +++--
 fibertree/core/tensor.py | 22 ++++++++++++
 3 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index cef43ad..bacb487 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2610,6 +2610,21 @@ class Fiber:
             updates.append((fiber, new_coords))
 
         for fiber, new_coords in updates:
+            if fiber._active_range is not None:
+                #
+                # The active range must include the updated coordinates
+                # of the elements it included before
+                #
+                start, end = fiber._active_range
+                active = [new for old, new in zip(fiber.coords, new_coords)
+                          if start <= old < end]
+
+                if active and not isinstance(active[0], type(start)):
+                    fiber._active_range = None
+                elif active:
+                    end = max(end, Fiber._nextCoord(max(active)))
+                    fiber.setActive((min(start, min(active)), end))
+
             fiber.coords = new_coords
 
             if fiber._ordered:
@@ -2768,7 +2783,7 @@ class Fiber:
                             rest.append(ns)
 
                         else:
-                            rest[i] = max(rest[i], ns)
+                            rest[i] = Fiber._maxShape(rest[i], ns)
 
                 # With no elements the default may know the lower ranks
                 default = self.getRankAttrs().getDefault()
@@ -2827,11 +2842,6 @@ class Fiber:
         if shape is None:
             shape = []
 
-        #
-        # Try to determine the maximum coordinate
-        #
-        max_coord = self.maxCoord()
-
         #
         # If fiber is empty then shape doesn't change
         #
@@ -2844,11 +2854,12 @@ class Fiber:
         #
         # Update shape for this Fiber at this level
         #
-        new_shape = Fiber._transCoord(max_coord, lambda c: c + 1)
+        new_shape = Fiber._boundingShape(self.coords)
+
         if len(shape) < level + 1:
             shape.append(new_shape)
         else:
-            shape[level] = max(shape[level], Fiber._transCoord(max_coord))
+            shape[level] = Fiber._maxShape(shape[level], new_shape)
 
         #
         # Recursively process payloads that are Fibers
@@ -2859,6 +2870,28 @@ class Fiber:
 
         return shape
 
+    @staticmethod
+    def _boundingShape(coords):
+        """The smallest shape all the given coordinates lie inside of"""
+
+        if not isinstance(coords[0], tuple):
+            return Fiber._transCoord(max(coords), lambda c: c + 1)
+
+        return tuple(Fiber._boundingShape(cs) for cs in zip(*coords))
+
+    @staticmethod
+    def _maxShape(shape_a, shape_b):
+        """The smallest shape that includes both of the given shapes"""
+
+        if isinstance(shape_a, tuple) and isinstance(shape_b, tuple):
+            return tuple(map(Fiber._maxShape, shape_a, shape_b))
+
+        # The shape of a fiber without any coordinates is 0
+        if isinstance(shape_a, tuple) or isinstance(shape_b, tuple):
+            return shape_a or shape_b
+
+        return max(shape_a, shape_b)
+
     @staticmethod
     def _transCoord(coord, trans_fn=lambda c: c):
         """Translate all integers of a coordinate according to the function,
@@ -4636,6 +4669,18 @@ class Fiber:
         if not self.coords:
             return Fiber([], [], default=Fiber)
 
+        #
+        # The shapes of the new ranks
+        #
+        shape1 = None
+        shape0 = None
+
+        shape = self.getRankAttrs().getShape()
+
+        if isinstance(shape, tuple):
+            shape1 = shape[0]
+            shape0 = shape[1:] if len(shape) > 2 else shape[1]
+
         #
         # Place to collect cordinates/payloads for new top rank
         #
@@ -4682,6 +4727,7 @@ class Fiber:
 
                     cur_fiber = Fiber(coords0,
                                       payloads0,
+                                      shape=shape0,
                                       default=self.getDefault())
 
                     if levels > 1:
@@ -4714,6 +4760,7 @@ class Fiber:
 
         fiber0 = Fiber(coords0,
                        payloads0,
+                       shape=shape0,
                        default=self.getDefault())
 
 
@@ -4728,9 +4775,12 @@ class Fiber:
         #
         # Create (and return) the new top (c1) rank
         #
-        fiber1 = self._newFiber(coords1,
-                                payloads1,
-                                default=Fiber())
+        fiber1 = Fiber(coords1,
+                       payloads1,
+                       shape=shape1,
+                       default=Fiber(),
+                       ordered=self._ordered,
+                       unique=self._unique)
 
         return fiber1
 
diff --git a/fibertree/core/rank.py b/fibertree/core/rank.py
index c813966..c110811 100644
--- a/fibertree/core/rank.py
+++ b/fibertree/core/rank.py
@@ -9,6 +9,8 @@ A class used to implement a rank (or dimension) of a tensor.
 import logging
 import pickle
 
+from functools import reduce
+
 from .fiber import Fiber
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -221,7 +223,7 @@ class Rank:
                 #
                 # We do not actually know the shape, but we can estimate it
                 #
-                return max([f.estimateShape(all_ranks=False) for f in self.fibers])
+                return reduce(Fiber._maxShape, [f.estimateShape(all_ranks=False) for f in self.fibers])
 
             return self._attrs.getShape()
 
@@ -239,7 +241,7 @@ class Rank:
         elif len(self.fibers) == 0:
             shape = [0]
         else:
-            shape = [max([f.estimateShape(all_ranks=False) for f in self.fibers])]
+            shape = [reduce(Fiber._maxShape, [f.estimateShape(all_ranks=False) for f in self.fibers])]
 
         if self.next_rank is not None:
             rest_of_shape = self.next_rank.getShape(all_ranks=True, authoritative=authoritative)
@@ -460,7 +462,7 @@ class Rank:
             if old is None and new != 0:
                 self._attrs.setShape(new)
             elif new != 0:
-                self._attrs.setShape(max(old, new))
+                self._attrs.setShape(Fiber._maxShape(old, new))
 
         #
         # Set this rank as owner of the fiber
diff --git a/fibertree/core/tensor.py b/fibertree/core/tensor.py
index ec77f7b..2d93ad9 100644
--- a/fibertree/core/tensor.py
+++ b/fibertree/core/tensor.py
@@ -1189,6 +1189,20 @@ class Tensor:
 
         new_tensor.getRoot().updateCoords(func, depth=depth, **kwargs)
 
+        #
+        # The new attributes of the rank also apply when it has no fibers
+        #
+        if kwargs.get("rankid") is not None:
+            depth = self.getRankIds().index(kwargs["rankid"])
+
+        attrs = new_tensor.ranks[depth].getAttrs()
+
+        if kwargs.get("new_rank_id") is not None:
+            attrs.setId(kwargs["new_rank_id"])
+
+        if kwargs.get("new_shape") is not None:
+            attrs.setShape(kwargs["new_shape"])
+
         return new_tensor
 
 
@@ -1500,6 +1514,10 @@ class Tensor:
             kwargs["shape"] = new_shape
 
         swizzled = Tensor.fromFiber(**kwargs)
+        swizzled.setMutable(self.isMutable())
+
+        for rank_id in rank_ids:
+            swizzled.setFormat(rank_id, self.getFormat(rank_id))
 
         # For each fiber, reset its active range
         frontier = [swizzled.getRoot()]
@@ -1515,6 +1533,10 @@ class Tensor:
                 ends = [range_[1] for range_ in rank_ranges if range_[0] <= fiber.coords[-1] and range_[1] > fiber.coords[-1]]
                 end = max(ends, default=Fiber._nextCoord(fiber.coords[-1]))
 
+                # An estimated shape need not include the whole range
+                if not old_shape and not isinstance(end, tuple):
+                    end = min(end, fiber.getShape(all_ranks=False))
+
                 fiber.setActive((start, end))
 
                 if isinstance(fiber.payloads[0], Fiber):
-- 
2.43.0


From e3b0fb24e7c9fc5f11f8f6fe11ec8dcc655d1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:49 +0000
Subject: [PATCH 34/44] fix: nonEmpty and unflattenRanks copy the payloads they
 return

---
 fibertree/core/fiber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index bacb487..f964d20 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -2315,7 +2315,7 @@ class Fiber:
                 if Payload.contains(p, Fiber):
                     payloads.append(p.nonEmpty())
                 else:
-                    payloads.append(p)
+                    payloads.append(copy.deepcopy(p))
 
         return self._newFiber(coords, payloads)
 
@@ -4747,7 +4747,11 @@ class Fiber:
                 payloads0 = []
 
             coords0.append(c0)
-            payloads0.append(p0)
+
+            if isinstance(p0, Fiber):
+                payloads0.append(p0.copy(preserve_owner=False))
+            else:
+                payloads0.append(copy.deepcopy(p0))
 
         #
         # Pick up the last element of the new top rank
-- 
2.43.0


From 1eb5812d5d58a8edb3074658bdae5e43bec8011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 35/44] fix: numOps of a kernel without operations; a session
 never extends the trace files of an earlier one

---
 fibertree/core/metrics.py  | 4 ++++
 fibertree/model/compute.py | 5 +----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 396df81..4771d5f 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -636,6 +636,10 @@ class Metrics:
         else:
             cls.traces[rank][type_] = ([], mem_trace, is_started)
 
+            # Forget the trace an earlier session left under the same name
+            with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
+                f.write("")
+
     @classmethod
     def _writeTrace(cls, rank, type_):
         """Write the trace to the file
diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 9b9833c..4f8d859 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -35,10 +35,7 @@ class Compute:
     def numOps(dump, op):
         """Compute the number of operations executed by this kernel """
         metric = "payload_" + op
-        if(metric in dump["Compute"].keys()):
-            return dump["Compute"][metric]
-        else:
-            return 0
+        return dump.get("Compute", {}).get(metric, 0)
 
     @staticmethod
     def numSwaps(tensor, depth, radix, next_latency):
-- 
2.43.0


From 590b4c22ed3578da52054479cc3059be8a2d1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 36/44] fix: traced positions of elements after explicit
 defaults; iteration rows of dense loops; operands of xor, sub and union do
 not tick; populate of an output of estimated shape while collecting

---
 fibertree/core/fiber.py     |  11 ++--
 fibertree/core/iterators.py | 113 +++++++++++++++++++++++++++---------
 2 files changed, 94 insertions(+), 30 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index f964d20..eb088d7 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -26,7 +26,7 @@ from .any import Any
 from .coord_payload import CoordPayload
 from .iterators import coiterShape, coiterShapeRef, coiterActiveShape, \
     coiterActiveShapeRef, coiterRangeShape, coiterRangeShapeRef, intersection, \
-    union
+    union, _get_position
 from .metrics import Metrics
 from .payload import Payload
 from .rank_attrs import RankAttrs
@@ -940,7 +940,7 @@ class Fiber:
         else:
             payload = self._create_payload(coords[0])
 
-        if Metrics.isCollecting():
+        if Metrics.isCollecting() and trace is not None:
             Metrics.addUse(self.getRankAttrs().getId(), coords[0], index, type_=trace)
 
         if len(coords) > 1:
@@ -1307,6 +1307,7 @@ class Fiber:
 
         # Build the iterator
         class project_iterator:
+            src = self
             fbr = fiber
             tck = tick
             trans = lambda self, c: trans_fn(c)
@@ -1353,7 +1354,8 @@ class Fiber:
                         yield c, p
 
                         if traced:
-                            Metrics.addUse(src_rank, old_c, i + j,
+                            Metrics.addUse(src_rank, old_c,
+                                _get_position(self.src, old_c, i + j),
                                 type_=trace, iteration_num=iteration)
                             iteration = Metrics.getIter().copy()
 
@@ -4813,7 +4815,8 @@ class Fiber:
         rank = self.getRankAttrs().getId()
         depth = Metrics.getIndex(rank)
         for i, (c, p) in enumerate(self.__iter__(tick=False)):
-            Metrics.addUse(rank, c, i, type_=trace_type, iteration_num=iteration_num)
+            Metrics.addUse(rank, c, _get_position(self, c, i),
+                           type_=trace_type, iteration_num=iteration_num)
 
             # Recurse down the tree
             if isinstance(p, Fiber):
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index a1ea947..6855493 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -15,12 +15,7 @@ from .payload import Payload
 
 def __iter__(self, tick=True, start_pos=None):
     """__iter__"""
-    if self.getOwner() is not None:
-        fmt = self.getOwner().getFormat()
-    elif self.getRankAttrs() is not None:
-        fmt = self.getRankAttrs().getFormat()
-    else:
-        fmt = "C"
+    fmt = _get_format(self)
 
     if fmt == "C":
         return self.iterOccupancy(tick, start_pos=start_pos)
@@ -220,6 +215,11 @@ def iterRangeShape(self, start, end, step=1, tick=True):
 
     for c in range(start, end, step):
         p = self.getPayload(c)
+
+        # Add a use of the given coordinate
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, _get_position(self, c))
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -254,6 +254,11 @@ def iterRangeShapeRef(self, start, end, step=1, tick=True):
 
     for c in range(start, end, step):
         p = self.getPayloadRef(c)
+
+        # Add a use of the given coordinate
+        if is_collecting and tick:
+            Metrics.addUse(rank, c, _get_position(self, c))
+
         yield CoordPayload(c, p)
 
         if is_collecting and tick:
@@ -280,6 +285,46 @@ def _prep_metrics_inc(fiber):
 
     return is_collecting, rank
 
+def _get_position(fiber, coord, count=None):
+    """Get the position in the fiber of a coordinate being iterated over
+
+    Parameters
+    ----------
+    fiber: Fiber
+        The fiber the coordinate was read from
+
+    coord: coordinate
+        The coordinate
+
+    count: int
+        The number of elements already produced (needed for lazy fibers, whose
+        elements have no other position)
+
+    Returns
+    -------
+    position: int
+        The index of the element in a compressed fiber and the coordinate
+        itself in an uncompressed one
+
+    """
+    if fiber.isLazy():
+        return count
+
+    if _get_format(fiber) == "U":
+        return coord
+
+    return fiber._coord2pos(coord)
+
+def _get_format(fiber):
+    """Get the format of the rank the fiber belongs to"""
+    if fiber.getOwner() is not None:
+        return fiber.getOwner().getFormat()
+
+    if fiber.getRankAttrs() is not None:
+        return fiber.getRankAttrs().getFormat()
+
+    return "C"
+
 #
 # Dense coiterators
 #
@@ -537,7 +582,8 @@ def intersection(*args, **kwargs):
 
                 for i, (c, p) in enumerate(self.fibers[0].__iter__(tick=False)):
                     if leader_traced:
-                        Metrics.addUse(rank, c, i, type_=traces[0])
+                        Metrics.addUse(rank, c,
+                            _get_position(self.fibers[0], c, i), type_=traces[0])
 
                     payloads = [p]
                     for j, fiber in enumerate(self.fibers[1:]):
@@ -597,7 +643,7 @@ def union(*args):
         fibers = args
 
         def __iter__(self):
-            for c, np in self.nested:
+            for c, np in self.nested.__iter__(tick=False):
                 p = [None] * (self.num_args + 1)
 
                 # This is the mask
@@ -771,11 +817,13 @@ def __and__(self, other):
                 if a_coord == b_coord:
 
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord,
+                            _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
                         a_pos += 1
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
                         b_pos += 1
 
                     yield succ_yield(a_coord, b_coord), (a_payload, b_payload)
@@ -787,7 +835,8 @@ def __and__(self, other):
 
                 if a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord,
+                            _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
                         a_pos += 1
 
                     if is_collecting:
@@ -799,7 +848,8 @@ def __and__(self, other):
 
                 if a_coord > b_coord:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
                         b_pos += 1
 
                     if is_collecting:
@@ -810,10 +860,12 @@ def __and__(self, other):
                     continue
 
             if a_traced and a_coord is not None:
-                Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                Metrics.addUse(rank, a_coord,
+                    _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
 
             if b_traced and b_coord is not None:
-                Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                Metrics.addUse(rank, b_coord,
+                    _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
 
             if is_collecting:
                 Metrics.incIter(rank)
@@ -903,11 +955,13 @@ def __or__(self, other):
             while a_coord is not None and b_coord is not None:
                 if a_coord == b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord,
+                            _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
                         a_pos += 1
 
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
                         b_pos += 1
 
                     yield a_coord, ("AB", a_payload, b_payload)
@@ -919,7 +973,8 @@ def __or__(self, other):
 
                 elif a_coord < b_coord:
                     if a_traced:
-                        Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                        Metrics.addUse(rank, a_coord,
+                            _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
                         a_pos += 1
 
                     b_default = self.b_fiber._createDefault(addtorank=False)
@@ -929,7 +984,8 @@ def __or__(self, other):
                 # a_coord > b_coord
                 else:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
                         b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
@@ -938,7 +994,8 @@ def __or__(self, other):
 
             while a_coord is not None:
                 if a_traced:
-                    Metrics.addUse(rank, a_coord, a_pos, type_=a_trace)
+                    Metrics.addUse(rank, a_coord,
+                        _get_position(self.a_fiber, a_coord, a_pos), type_=a_trace)
                     a_pos += 1
 
                 b_default = self.b_fiber._createDefault(addtorank=False)
@@ -947,7 +1004,8 @@ def __or__(self, other):
 
             while b_coord is not None:
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos), type_=b_trace)
                         b_pos += 1
 
                     a_default = self.a_fiber._createDefault(addtorank=False)
@@ -1013,8 +1071,8 @@ def __xor__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
@@ -1145,6 +1203,8 @@ def __lshift__(self, other, start_pos=None):
             old_end = 0
             to_insert = []
             insert_pos = self.a_fiber.getShape(all_ranks=False, authoritative=True)
+            if insert_pos is None:
+                insert_pos = self.a_fiber.getShape(all_ranks=False)
             insert_start_pos = None
 
             for b_pos, (b_coord, b_payload) in enumerate(b):
@@ -1159,11 +1219,12 @@ def __lshift__(self, other, start_pos=None):
                     a_max = self.a_fiber.maxCoord()
                     if b_pos == 0 and a_max is not None and compressed_output:
                         inserting = b_coord < a_max
-                        assert insert_pos is not None
 
                     # Read the B coordinate
                     if b_traced:
-                        Metrics.addUse(rank, b_coord, b_pos, type_=b_trace)
+                        Metrics.addUse(rank, b_coord,
+                            _get_position(self.b_fiber, b_coord, b_pos),
+                            type_=b_trace)
 
                     # If we are inserting into a compressed fiber, we need
                     # to search for the coordinate
@@ -1345,8 +1406,8 @@ def __sub__(self, other):
         b_fiber = other
 
         def __iter__(self):
-            a = self.a_fiber.__iter__()
-            b = self.b_fiber.__iter__()
+            a = self.a_fiber.__iter__(tick=False)
+            b = self.b_fiber.__iter__(tick=False)
 
             a_coord, a_payload = _get_next(a)
             b_coord, b_payload = _get_next(b)
-- 
2.43.0


From 4d6a02ec9ba88c91308f974ea094a047de6f046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 37/44] fix: read rows of an inserting populate do not depend
 on the write trace; project rows include the last element read; ranks matched
 or traced after registration get their traces and headers

---
 fibertree/core/fiber.py     |  6 +++--
 fibertree/core/iterators.py | 11 ++++----
 fibertree/core/metrics.py   | 50 ++++++++++++++++++++++++-------------
 3 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index eb088d7..0426151 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1351,12 +1351,14 @@ class Fiber:
 
                     if self.interv is None \
                             or (c >= self.interv[0] and c < self.interv[1]):
-                        yield c, p
-
                         if traced:
                             Metrics.addUse(src_rank, old_c,
                                 _get_position(self.src, old_c, i + j),
                                 type_=trace, iteration_num=iteration)
+
+                        yield c, p
+
+                        if traced:
                             iteration = Metrics.getIter().copy()
 
         if interval:
diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 6855493..1be1d2c 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1295,7 +1295,7 @@ def __lshift__(self, other, start_pos=None):
 
                 # If this is a new payload, we may have to track the
                 # insert/append
-                elif a_write_traced:
+                elif a_read_traced or a_write_traced:
                     # If we just inserted into a compressed fiber, save the
                     # relevant information
                     if inserting and new_a_payload:
@@ -1310,10 +1310,11 @@ def __lshift__(self, other, start_pos=None):
                         write_pos = a_pos - len(to_insert)
 
                     # Write the new value
-                    iteration[Metrics.getIndex(rank)] += 1
-                    Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
-                        iteration_num=iteration)
-                    Metrics.incIter(rank)
+                    if a_write_traced:
+                        iteration[Metrics.getIndex(rank)] += 1
+                        Metrics.addUse(rank, b_coord, write_pos, type_=a_write_trace,
+                            iteration_num=iteration)
+                        Metrics.incIter(rank)
 
                 a_pos += 1
 
diff --git a/fibertree/core/metrics.py b/fibertree/core/metrics.py
index 4771d5f..792547f 100644
--- a/fibertree/core/metrics.py
+++ b/fibertree/core/metrics.py
@@ -491,6 +491,15 @@ class Metrics:
         for rank in all_matches:
             cls.all_rank_matches[rank] = all_matches.difference({rank})
 
+        # A rank already in the loop order will not be registered again
+        for loop_rank in cls.loop_order or []:
+            if loop_rank not in all_matches:
+                continue
+
+            for rank in all_matches:
+                if rank not in cls.line_order and rank not in cls.rank_matches:
+                    cls._startMatch(rank, loop_rank)
+
     @classmethod
     def registerRank(cls, rank):
         """Register a rank as a part of the loop order
@@ -527,11 +536,16 @@ class Metrics:
             if rank not in dst_ranks:
                 continue
 
-            cls.rank_matches[src_rank] = rank
+            cls._startMatch(src_rank, rank)
 
-            if src_rank in cls.traces.keys():
-                for type_ in cls.traces[src_rank]:
-                    cls._startTrace(src_rank, type_)
+    @classmethod
+    def _startMatch(cls, rank, loop_rank):
+        """Associate a rank with the rank of the loop order it matches"""
+        cls.rank_matches[rank] = loop_rank
+
+        if rank in cls.traces.keys():
+            for type_ in cls.traces[rank]:
+                cls._startTrace(rank, type_)
 
     @classmethod
     def setNumCachedUses(cls, num_cached_uses):
@@ -575,11 +589,6 @@ class Metrics:
         """
         assert rank in cls.line_order or rank in cls.rank_matches
 
-        if rank in cls.line_order:
-            end = cls.line_order[rank] + 1
-        else:
-            end = cls.line_order[cls.rank_matches[rank]] + 1
-
         file_trace, mem_trace, _ = cls.traces[rank][type_]
         cls.traces[rank][type_] = (file_trace, mem_trace, True)
 
@@ -587,18 +596,20 @@ class Metrics:
             with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
                 f.write("")
 
-        pos = ",".join(r + "_pos" for r in cls.loop_order[:end])
-        coord = ",".join(r for r in cls.loop_order[:end])
-
-        headings = [pos, coord, "fiber_pos"]
-        headings = list(r + "_pos" for r in cls.loop_order[:end]) + \
-            cls.loop_order[:end] + ["fiber_pos"]
+        headings = cls._getHeadings(rank)
 
         if file_trace is not None:
             file_trace.append(headings)
         if mem_trace is not None:
             mem_trace.append(headings)
 
+    @classmethod
+    def _getHeadings(cls, rank):
+        """Get the header of the traces of a rank of the loop order"""
+        end = cls.getIndex(rank) + 1
+
+        return list(r + "_pos" for r in cls.loop_order[:end]) + \
+            cls.loop_order[:end] + ["fiber_pos"]
 
     @classmethod
     def trace(cls, rank, type_="iter", consumable=False):
@@ -630,11 +641,16 @@ class Metrics:
         if type_ not in cls.traces[rank].keys():
             cls.traces[rank][type_] = (None, None, False)
 
+        # If the rank is already being iterated over, start the trace now
+        rows = []
+        if rank in cls.line_order or rank in cls.rank_matches:
+            rows.append(cls._getHeadings(rank))
+
         file_trace, mem_trace, is_started = cls.traces[rank][type_]
         if consumable:
-            cls.traces[rank][type_] = (file_trace, [], is_started)
+            cls.traces[rank][type_] = (file_trace, rows, is_started)
         else:
-            cls.traces[rank][type_] = ([], mem_trace, is_started)
+            cls.traces[rank][type_] = (rows, mem_trace, is_started)
 
             # Forget the trace an earlier session left under the same name
             with open(cls.prefix + "-" + rank + "-" + type_ + ".csv", "w") as f:
-- 
2.43.0


From 773fd73cbdb63a526b056ac15f83785270011a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 38/44] fix: filterTrace keeps all rows of a point;
 cacheTraffic with several lines of a binding at one iteration stamp or equal
 lines of two bindings; shape of the bound rank, loop_ranks and negative
 coordinates in traffic models

---
 fibertree/model/traffic.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/fibertree/model/traffic.py b/fibertree/model/traffic.py
index e23d083..d22aee1 100644
--- a/fibertree/model/traffic.py
+++ b/fibertree/model/traffic.py
@@ -55,14 +55,12 @@ class Traffic:
             data_fil = get_data(line_fil)[:len(data_in)]
 
             while line_in and line_fil:
+                # Keep the filter row, later input rows may match it too
                 if data_in == data_fil:
                     f_out.write(line_in)
 
                     line_in = f_in.readline()
-                    line_fil = f_fil.readline()
-
                     data_in = get_data(line_in)
-                    data_fil = get_data(line_fil)[:len(data_in)]
 
                 elif data_in < data_fil:
                     line_in = f_in.readline()
@@ -415,8 +413,7 @@ class Traffic:
                 order = line[start:(start * 2)]
 
         # Fill the loop ranks
-        for rank in order:
-            loop_ranks[rank] = rank
+        loop_ranks = {**{rank: rank for rank in order}, **loop_ranks}
 
         # Order the binding information, and get rid of the keys
         bind_info = [[] for _ in order]
@@ -469,7 +466,8 @@ class Traffic:
         # Compute the last lines for all writable traces whose intermediate
         # writes we can ignore
         shapes = []
-        for i, info in enumerate(bind_info):
+        for info in bind_info:
+            tensor, rank = info[:2]
             if pin_intermediate_writes(info):
                 shape = formats[tensor].tensor.getShape(authoritative=True)
                 assert shape is not None
@@ -577,7 +575,7 @@ class Traffic:
         split = line[:-1].split(",")
         trace = []
         for val in split:
-            if val.isdigit():
+            if val.lstrip("-").isdigit():
                 trace.append(int(val))
             elif val[0] == "N":
                 trace.append(None)
@@ -655,6 +653,14 @@ class Traffic:
             def __repr__(self):
                 return str((self.next_access, self.obj, self.pos))
 
+        def remove_elem(next_evict, list_elem):
+            # Elements with the same next access compare equal
+            i = next_evict.bisect_left(list_elem)
+            while next_evict[i] is not list_elem:
+                i += 1
+
+            del next_evict[i]
+
         def extract_binding(binding):
             return binding["tensor"], binding["rank"], binding["type"]
 
@@ -683,11 +689,9 @@ class Traffic:
             # Do not buffer if never used again
             if trace[num_ranks * 2 + 2] is None:
                 if obj in objs[tensor][type_]:
-                    if next_evict and next_evict[0].obj == obj:
-                        list_elem = next_evict.pop(0)
-                    else:
-                        assert obj in pinned[tensor][type_]
-                        list_elem = objs[tensor][type_][obj][1]
+                    list_elem = objs[tensor][type_][obj][1]
+                    if obj not in pinned[tensor][type_]:
+                        remove_elem(next_evict, list_elem)
 
                     list_elem.next_access = [float("inf")]
 
@@ -698,9 +702,9 @@ class Traffic:
                 return False, sim_info
 
             # If this element is in the cache, but not pinned
-            if next_evict and next_evict[0].obj == obj \
-                    and next_evict[0].pos == bind_pos:
-                list_elem = next_evict.pop(0)
+            if obj in objs[tensor][type_] and obj not in pinned[tensor][type_]:
+                list_elem = objs[tensor][type_][obj][1]
+                remove_elem(next_evict, list_elem)
                 list_elem.next_access = next_access
 
                 next_evict.add(list_elem)
-- 
2.43.0


From 8ad989a4f0555c3e226f0eea5614b824c502ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 39/44] fix: intersection models compare only elements of the
 same fiber and accept empty batches

---
 fibertree/model/intersect.py | 82 +++++++++++-------------------------
 1 file changed, 25 insertions(+), 57 deletions(-)

diff --git a/fibertree/model/intersect.py b/fibertree/model/intersect.py
index 71e1b0d..9d19794 100644
--- a/fibertree/model/intersect.py
+++ b/fibertree/model/intersect.py
@@ -76,7 +76,7 @@ class LeaderFollowerIntersector(Intersector):
         new_intersects = len(traces[0])
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and traces[0]:
             self.started = True
             new_intersects -= 1
 
@@ -121,22 +121,29 @@ class SkipAheadIntersector(Intersector):
 
         def get_next(trace, i):
             if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
+                # The fiber is identified by the stamp of the enclosing
+                # iterations (and their coordinates), ordered by the stamp
+                row = trace[i + 1]
+                return row[:self.num_ranks - 1] + row[self.num_ranks:self.num_ranks * 2], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
         point1, i1 = get_next(trace1, i1)
 
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
         curr = None
 
         while point0 and point1:
-            if point0 == point1:
+            # One of the operands has nothing (left) in this fiber: forward the
+            # other finger to the next fiber
+            if point0[:-1] != point1[:-1]:
+                curr = None
+
+                if point0 < point1:
+                    point0, i0 = get_next(trace0, i0)
+                else:
+                    point1, i1 = get_next(trace1, i1)
+
+            elif point0 == point1:
                 self.num_intersects += 1
                 curr = None
 
@@ -150,11 +157,6 @@ class SkipAheadIntersector(Intersector):
 
                 point0, i0 = get_next(trace0, i0)
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
             # point0 > point1
             else:
                 if curr != 1:
@@ -163,23 +165,6 @@ class SkipAheadIntersector(Intersector):
 
                 point1, i1 = get_next(trace1, i1)
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
-
-            old_fiber = fiber
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
-
-            # Do not need to check point1 because both fingers should fall of
-            # the end of the trace at the same time
-
-            if fiber != old_fiber:
-                curr = None
-
 class TwoFingerIntersector(Intersector):
     """Class for counting intersections with a two-finger-intersector"""
 
@@ -204,7 +189,7 @@ class TwoFingerIntersector(Intersector):
         trace1 = traces[1]
 
         # Throw away the header, since we don't need it
-        if not self.started:
+        if not self.started and trace0:
             self.started = True
 
             self.num_ranks = (len(trace0[0]) - 1) // 2
@@ -217,21 +202,20 @@ class TwoFingerIntersector(Intersector):
 
         def get_next(trace, i):
             if i + 1 < len(trace):
-                return trace[i + 1][self.num_ranks:self.num_ranks * 2], i + 1
+                # The fiber is identified by the stamp of the enclosing
+                # iterations (and their coordinates), ordered by the stamp
+                row = trace[i + 1]
+                return row[:self.num_ranks - 1] + row[self.num_ranks:self.num_ranks * 2], i + 1
             return None, None
 
         point0, i0 = get_next(trace0, i0)
         point1, i1 = get_next(trace1, i1)
 
-        if point0 is None or point1 is None:
-            return
-
-        assert point0 is not None and point1 is not None and point0[:-1] == point1[:-1]
-
-        fiber = point0[:-1]
-
         while point0 and point1:
-            self.num_intersects += 1
+            # No comparison if one of the operands has nothing (left) in this
+            # fiber: forward the other finger to the next fiber
+            if point0[:-1] == point1[:-1]:
+                self.num_intersects += 1
 
             if point0 == point1:
                 point0, i0 = get_next(trace0, i0)
@@ -240,23 +224,7 @@ class TwoFingerIntersector(Intersector):
             elif point0 < point1:
                 point0, i0 = get_next(trace0, i0)
 
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point0 is None or fiber != point0[:-1]:
-                    point1, i1 = get_next(trace1, i1)
-
 
             # point0 > point1
             else:
                 point1, i1 = get_next(trace1, i1)
-
-                # If we have reached the end of this iteration, forward the other
-                # finger to the next fiber
-                if point1 is None or fiber != point1[:-1]:
-                    point0, i0 = get_next(trace0, i0)
-
-            if point0:
-                fiber = point0[:-1]
-            else:
-                fiber = None
-
-- 
2.43.0


From e6382993651aef5e07a03ed3d9ce9ebeb29e527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 40/44] fix: numSwaps counts stored lists whatever their
 payload values or rank format, and accepts radix N

---
 fibertree/model/compute.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fibertree/model/compute.py b/fibertree/model/compute.py
index 4f8d859..b04c1a4 100644
--- a/fibertree/model/compute.py
+++ b/fibertree/model/compute.py
@@ -72,18 +72,20 @@ class Compute:
         # Recurse if necessary
         if depth > 0:
             depth -= 1
-            for _, payload in fiber:
+            for payload in fiber.getPayloads():
                 swaps += Compute._numSwapsTree(payload, depth, radix, next_latency)
             return swaps
 
         # Otherwise merge
+        # Note: the lists are what is stored, whatever the payload values are
         coords = []
-        for _, payload in fiber:
-            coords.append(sorted([-c for c in payload.getCoords()]))
+        for payload in fiber.getPayloads():
+            if len(payload) > 0:
+                coords.append(sorted([-c for c in payload.getCoords()]))
 
         while len(coords) > 1:
             new = []
-            if radix > len(coords):
+            if radix == "N" or radix > len(coords):
                 radix = len(coords)
 
             for i in range(0, len(coords), radix):
-- 
2.43.0


From db97e79e902f23a1324d16a1f978b541d72ef593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 41/44] fix: C and B fibers under a parent number the fibers of
 the next rank across the rank, pass the imposed shape down, and report the
 size of empty fibers

---
 fibertree/codec/formats/bitvector.py  |  6 +++++-
 fibertree/codec/formats/coord_list.py | 17 ++---------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/fibertree/codec/formats/bitvector.py b/fibertree/codec/formats/bitvector.py
index 5a8bb1f..e3009fa 100644
--- a/fibertree/codec/formats/bitvector.py
+++ b/fibertree/codec/formats/bitvector.py
@@ -40,7 +40,7 @@ class Bitvector(CompressionFormat):
         
         for ind, (val) in a:
             if depth < len(ranks) - 1:
-                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor)
+                fiber, child_occupancy = codec.encode(depth + 1, val, ranks, output, output_tensor, shape=shape)
                 # store coordinate explicitly
                 self.payloads.append(fiber)
                 if isinstance(cumulative_occupancy, int):
@@ -127,6 +127,10 @@ class Bitvector(CompressionFormat):
         # self.prev_coord_at_payload = iter_handle.coords_handle
         return super().handleToPayload(iter_handle.payloads_handle)
 
+    def payloadToFiberHandle(self, payload):
+        # fibers of the next rank are numbered across all fibers of this rank
+        return self.occupancy_so_far + payload
+
     # does this need to return a payload handle?
     # NOTE: in bitvector, handles to coords and payloads are different
     def coordToHandle(self, coord):
diff --git a/fibertree/codec/formats/coord_list.py b/fibertree/codec/formats/coord_list.py
index 97ec4d4..1fc7bee 100644
--- a/fibertree/codec/formats/coord_list.py
+++ b/fibertree/codec/formats/coord_list.py
@@ -226,22 +226,12 @@ class CoordinateList(CompressionFormat):
 
     # API Methods
     def handleToPayload(self, handle):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if self.next_fmt != None and not self.next_fmt.encodeUpperPayload():
-            print("\t\tnext level not encoded, ret {}".format(self.occupancy_so_far))
-            
-            return self.occupancy_so_far # self.idx_in_rank + handle
         return handle
 
     # API Methods
     def payloadToFiberHandle(self, payload):
-        # if next level has implicit payloads above (e.g. U), payload is implicit
-        if not self.next_fmt.encodeUpperPayload():
-            print("\t{} next level not encoded, payload {} ret {}".format(self.name, payload, payload))
-            return payload # self.idx_in_rank # + payload
-        
-        # print("\t{} payloadToFiberHandle:: ret {}".format(self.name, payload))
-        return payload
+        # fibers of the next rank are numbered across all fibers of this rank
+        return self.occupancy_so_far + payload
 
 
     # return handle for termination
@@ -277,9 +267,6 @@ class CoordinateList(CompressionFormat):
     # get size of representation
     def getSize(self): 
         # self.printFiber()
-        if self.next_fmt != None and self.next_fmt.encodeUpperPayload():
-            assert(len(self.payloads) > 0)
-
         size = len(self.coords) + len(self.occupancies)
         # Don't need to store occupancies if lower level is U
         # if not isinstance(self.payloads[0], CompressionFormat):
-- 
2.43.0


From 188af974765e8ab9e46440c931c04d6e0483ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 42/44] fix: populating a fiber that left its tensor does not
 look into an empty rank

---
 fibertree/core/iterators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index 1be1d2c..b9bbba1 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -1276,9 +1276,10 @@ def __lshift__(self, other, start_pos=None):
                     # middle, other than by changing the tree
                     owner = self.a_fiber.getOwner()
                     if owner is not None and owner.getNextRank() is not None:
-                        last = owner.getNextRank().getFibers()[-1]
-                        assert last is a_payload or any(p is last
-                            for f in owner.getFibers() for p in f.payloads)
+                        last = owner.getNextRank().getFibers()[-1:]
+                        assert not last or last[0] is a_payload \
+                            or any(p is last[0] for f in owner.getFibers()
+                                   for p in f.payloads)
 
                     # Clear the fiber
                     index = bisect.bisect_left(self.a_fiber.coords, b_coord)
-- 
2.43.0


From da3c9c9bf384aa853f39d4d6a1c1ee6e551875af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 43/44] fix: prune ends the traversal when the filter returns
 None

---
 fibertree/core/fiber.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/fiber.py b/fibertree/core/fiber.py
index 0426151..2309e31 100644
--- a/fibertree/core/fiber.py
+++ b/fibertree/core/fiber.py
@@ -1095,7 +1095,12 @@ class Fiber:
             def __iter__(self):
                 f_iter = self.fiber.__iter__(tick=False, start_pos=self.start)
                 for i, (c, p) in enumerate(f_iter):
-                    if self.trans(i, c, p):
+                    keep = self.trans(i, c, p)
+
+                    if keep is None:
+                        break
+
+                    if keep:
                         yield c, p
 
         result = Fiber.fromIterator(prune_iterator, active_range=self.getActive())
-- 
2.43.0


From fad1cfc0a6654d79739f9255c113092b46f3f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 44/44] fix: n-ary intersection delivers tuple-valued payloads
 whole

---
 fibertree/core/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fibertree/core/iterators.py b/fibertree/core/iterators.py
index b9bbba1..1ae54ea 100644
--- a/fibertree/core/iterators.py
+++ b/fibertree/core/iterators.py
@@ -551,11 +551,12 @@ def intersection(*args, **kwargs):
         # Lazy implementation
         class intersection_iterator:
             nested = nested_result
+            num_args = len(args)
 
             def __iter__(self):
                 for c, np in self.nested.__iter__(tick=False):
                     p = []
-                    while isinstance(Payload.get(np), tuple):
+                    for _ in range(self.num_args - 1):
                         val = Payload.get(np)
                         p.append(val[1])
                         np = val[0]
-- 
2.43.0

