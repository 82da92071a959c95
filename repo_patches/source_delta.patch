From 4563854cb958ac0c073e4be31dd2820f6099a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 01/25] fix: Transform.rotate_about must drop the cached
 inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 810c17b994c7692dbc19fb18d87325881a0f301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 02/25] fix: VectorRelative.p failed with AttributeError

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From 21355bf8a10baaa3f29852b34dfe3422b90c79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 03/25] fix: transform_pts failed for vector fields, whose
 numpy points have no third column

---
 x7/geom/transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..dcd5990 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -107,12 +107,13 @@ class Transformer(ABC):
             :returns: if **flatten** :code:`[x, y, ...]` else :code:`[(x, y), ...]` or :code:`[Point(x, y), ...]`
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
+        # Note: non-affine transformers return just (x, y)
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From adc43edd326a5783b2878ee35cea304bdc3efd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 04/25] fix: smooth control points with coinciding mapped
 handles failed with ZeroDivisionError

---
 x7/geom/bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..986b5c4 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -86,7 +86,8 @@ class ControlPoint(object):
                 cp.dl = -cp.dr
             elif cp.kind == 'smooth':
                 if cp.dl or cp.dr:
-                    direction = (cp.dr - cp.dl).unit()
+                    # Both handles might have been mapped to the same vector
+                    direction = (cp.dr - cp.dl or cp.dr).unit()
                     cp.dr = cp.dr.length() * direction
                     cp.dl = -cp.dl.length() * direction
         return cp
-- 
2.43.0


From 08d8544444f677bfb5487f5c376b0024e4f84f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 05/25] fix: element copies shared the own transform of the
 original

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..52a9ccc 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -580,7 +580,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -746,7 +746,7 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 945aee754b23b794607a902ea694442fbd0bc493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 06/25] fix: Group.restore and ElemWithHoles.restore aliased
 the transform of the copy

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 52a9ccc..a3ea433 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -900,7 +900,7 @@ class Group(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
@@ -1112,7 +1112,7 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
         self.inside = [e.copy() for e in self.inside]
 
-- 
2.43.0


From f052bc5dfdf18f9d65aeb45be9b62e8abc62ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 07/25] fix: ElemWithHoles.restore kept its own holes instead
 of those of the copy

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a3ea433..b8f96ba 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1114,7 +1114,7 @@ class ElemWithHoles(Elem):
         self.closed = other.closed
         self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 8baaf0b53f68c29ee423ab8bbc37edf5a04731b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 08/25] fix: Group.copy, restore and transform lost closed, and
 failed for a filled pen

---
 x7/geom/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b8f96ba..1f71db8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -894,11 +894,12 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
         self.xform = other.xform.copy()
         self.elems = dict(other.elems)
@@ -906,7 +907,7 @@ class Group(Elem):
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From f35c85ad905b222cdb804bce4275046c740559b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 09/25] fix: ElemWithHoles.paths repeated the edges of a hole
 that has several paths

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1f71db8..ddae988 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1066,8 +1066,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From b6a46b3d156437787933b58455d43fca9f17a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 10/25] fix: Group.replace lost the replaced element when it
 refused with ValueError

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ddae988..65358af 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -991,10 +991,10 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
+                if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
+                del self.elems[name]
                 self.add(replacement.name, replacement)
                 count += 1
             elif hasattr(e, 'replace'):
-- 
2.43.0


From 906b63ff3a27d65184b05ce7d2222722b9c056f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 11/25] fix: Animation.periodic and sin_cos multiplied t by the
 phase instead of adding it

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..f556ac4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 85c52b1a1f2b8acc0d6a75d5d4fd75a00ad8da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 12/25] fix: SimpleAnimation.animate stored every frame twice

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From d4fefb5d59f70c50a965d8561661226699cf13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 13/25] fix: SimpleAnimation drew outside the image for a
 drawing box not symmetric about y=0

---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..6216e3b 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.compose_outer(Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, 0)))
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From 344440d4b409bc12c361d24e425f975244d9c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 14/25] fix: ElemWithHoles.bbox ignored the own transform of
 its outside, and failed without holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 65358af..4bf3e9d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1092,9 +1092,9 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
-        if debug:
+        if debug and self.inside:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-- 
2.43.0


From dbe184f2eb931736ef884954118b8bf362e29273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 15/25] fix: ElemWithHoles.iter_elems doubled a dot in the
 names of its members

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 4bf3e9d..3055906 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1148,7 +1148,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From 2d525992f285c6f3990e02e6c48165e2c4ec3c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 16/25] fix: Group.iter_elems left its transform on the matrix
 when a member raised

---
 x7/geom/model.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3055906..70d57dd 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -951,13 +951,9 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push().compose(self.xform):
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From 5f17eadf2d61210e0af0f478823239315f2ce622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 17/25] fix: Group.dump lost that a group is hidden

---
 x7/geom/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 70d57dd..b7b7af7 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -940,7 +940,8 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        hidden = {'hidden': True} if self.hidden else {}
+        self.dump_elem(context, **hidden, elems=list)
         with context:
             for name, elem in sorted(self.elems.items()):
                 elem.dump(context)
-- 
2.43.0


From 56d59971d9646f7ca1f3d645e2f8d75d749916d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 18/25] fix: Group.replace lost the replaced element when it
 refused a dotted name

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b7b7af7..544bd9b 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -988,6 +988,8 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
                 if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
-- 
2.43.0


From 0bf8f8e04b26fc5063344de1ee4b4981665c2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 19/25] fix: ElemCurve.add_one changed the shape of a curve
 with a single control point

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 544bd9b..60c8c02 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -498,6 +498,8 @@ class ElemCurve(Elem):
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
+        if left == right:
+            r.dr = l.dr     # A single control point is both ends of its segment
         cps[left].restore(l)
         cps[right].restore(r)
         cps.insert(right, m)
-- 
2.43.0


From 7bf734a992e62304c0d2821ca77bb63633dfb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 20/25] fix: bez_split and ElemCurve.add_one turned sharp
 control points into smooth ones

---
 x7/geom/bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 986b5c4..59561de 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -645,9 +645,10 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     bcd = mid(bc, cd)
     abcd = mid(abc, bcd)
 
-    left = ControlPoint(a, cp1.dl, ab-a)
+    # The handles of an end point stay collinear but are no longer of equal length
+    left = ControlPoint(a, cp1.dl, ab-a, 'sharp' if cp1.kind == 'sharp' else 'smooth')
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr)
+    right = ControlPoint(d, cd-d, cp2.dr, 'sharp' if cp2.kind == 'sharp' else 'smooth')
 
     return left, middle, right
 
-- 
2.43.0


From c461c8d1f285a8df4117a7eccc907da0d18997ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 21/25] fix: Elem.draw drew a white line along paths that have
 neither pen nor fill

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 60c8c02..96d448d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 2fe4cc72f7b9febf86c223ebebaa416c5edcb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 22/25] fix: keep the side of the curve when limiting a corner
 offset

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 96d448d..fb4b875 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From 12cf44d995f2a344c7065829ed019bcf20a5f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 23/25] fix: GroupBuilder.hide hides the group it builds

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index fb4b875..b8c571f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1308,6 +1308,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 393b6df2336275a3621b51d0400560679b40bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 24/25] fix: bez_self_intersect changed the handles of the
 control points it was given

---
 x7/geom/bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 59561de..f1b2f31 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -358,7 +358,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
             # This segment self-intersects, so split it before adding to all_curves
             all_curves.extend([(left, middle, []), (middle, right, [])])
         else:
-            all_curves.append((cpa, cpb, []))
+            all_curves.append((cpa.copy(), cpb.copy(), []))
     # bz_plot_curves([[a, b] for a, b, c in all_curves])
 
     found_ixs = False       # found any intersections?
-- 
2.43.0


From e0fb57bb05418834eda270bf0d0da4d79f7f61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 25/25] fix: building the GIF palette failed with current
 Pillow (no room left in the palette)

---
 x7/geom/anim.py      | 2 +-
 x7/geom/imagehelp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f556ac4..ddf060b 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -528,7 +528,7 @@ class Builder(object):
             print('make_palette: found %d colors' % len(colors))
         all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
 
-        im.palette.colors = {}  # Start over on list of colors
+        im.palette.palette = b''  # Start over on list of colors
         for count, color in all_colors[:256]:
             im.palette.getcolor(color)
         im.load()  # Force palette to be loaded into actual image
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index c4836d4..ac6eec7 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -152,7 +152,7 @@ def palette_image(empty_image=False):
     """Return a 16-place palette image"""
     im = Image.new('P', (1024, 64))
     pal: ImagePalette.ImagePalette = im.palette
-    pal.palette = b'\x00' * 768
+    pal.palette = b''
     pal.getcolor((0, 0, 0))
     pal.getcolor((255, 255, 255))
     if not empty_image:
-- 
2.43.0

