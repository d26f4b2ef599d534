From 05678cbc3e318b1bc489b18eb3ca4af29797d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 01/90] fix: DOMRect.transform_self lost the right and bottom
 edges

The minimum overwrote x1/y1 before they were used for the maximum, so a
rectangle mapped to lower coordinates (e.g. rotated by 135 degrees) got
a bounding box that was too small.
---
 svgpy/geometry/rect.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..1e4bb2f 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -536,11 +536,9 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        xs = x1, x2, x3, x4
+        ys = y1, y2, y3, y4
+        self.set_coords(min(xs), min(ys), max(xs), max(ys))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From 901921643c7e53d1b5202b811b6211dc7ee72903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 02/90] fix: DOMRect.unite_self and contains ignored the extent
 of flat rectangles

---
 svgpy/geometry/rect.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 1e4bb2f..be0611c 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -148,12 +148,8 @@ class DOMRectReadOnly(object):
         """
         if not self.isvalid():
             return False
-        if width <= 0 or height <= 0:
-            if self.left <= x <= self.right and self.top <= y <= self.bottom:
-                return True
-            return False
-        right = x + width
-        bottom = y + height
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
         if (self.left <= x <= self.right
                 and self.left <= right <= self.right
                 and self.top <= y <= self.bottom
@@ -583,27 +579,11 @@ class DOMRect(DOMRectReadOnly):
 
         x1, y1, x2, y2 = self.get_coords()
 
-        if x1 is None or x < x1:
-            x1 = x
-        elif x > x2:
-            x2 = x
-
-        if y1 is None or y < y1:
-            y1 = y
-        elif y > y2:
-            y2 = y
-
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
-            if x2 is None or right > x2:
-                x2 = right
-            if y2 is None or bottom > y2:
-                y2 = bottom
-
-        if x2 is not None and y2 is not None:
-            self.set_coords(x1, y1, x2, y2)
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
+        if x1 is None or y1 is None:
+            self.set_coords(x, y, right, bottom)
         else:
-            self._x = x1
-            self._y = y1
+            self.set_coords(min(x1, x), min(y1, y),
+                            max(x2, right), max(y2, bottom))
         return self
-- 
2.43.0


From 56386c5d2347087913032e61b676e1fb47439fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 03/90] fix: DOMRect.transform_self left flat rectangles where
 they were

---
 svgpy/geometry/rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index be0611c..55ee923 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -520,7 +520,7 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if self._x is None or self._y is None:
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
-- 
2.43.0


From b88b5ca3b635c4b60a224a41da38fbe6c6890bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 04/90] fix: control point after a smooth curve ignored the
 curve's own control point

---
 svgpy/path.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..6396445 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -840,12 +840,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
-- 
2.43.0


From ce5ff7f898722f098f6b7ea624a4254047cdd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 05/90] fix: smooth curves reflected control points of curves
 of the other kind

---
 svgpy/path.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index 6396445..3bd4127 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -553,6 +553,16 @@ class SVGPathSegment(object):
 class PathSegment(object):
     """Utility class for SVG path segment."""
 
+    @staticmethod
+    def continues_curve(path_type, last_path_type):
+        """Returns True if the path segment is a shorthand/smooth curve that
+        follows a curve of its own kind (and so reflects its control point).
+        """
+        if last_path_type is None:
+            return False
+        return ((path_type in 'Ss' and last_path_type in 'CcSs')
+                or (path_type in 'Tt' and last_path_type in 'QqTt'))
+
     @staticmethod
     def get_bbox(path_segment, cpx, cpy, bearing, options=None, **extra):
         """Returns the bounding box of the path segment.
@@ -1349,6 +1359,8 @@ class PathParser(object):
                 # moveto: 'M'|'m' (x,y)+
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
+                if not PathSegment.continues_curve(command, last_command):
+                    x1, y1 = cpx, cpy
                 old_cpx, old_cpy = cpx, cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
@@ -1429,6 +1441,8 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if not PathSegment.continues_curve(command, last_command):
+                    x1, y1 = cpx, cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From fe501d9721599d1eec991dc61a6952be9cd41794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 06/90] fix: normalizing an arc that ends where it starts
 raised IndexError

---
 svgpy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 3bd4127..c6872d3 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1453,14 +1453,14 @@ class PathParser(object):
                     x1, y1 = PathSegment.get_next_control_point(
                         path_segment, cpx, cpy, bearing, last_command,
                         x1=x1, y1=y1)
-                else:
+                elif len(normalized) > 0:
                     x1, y1 = normalized[-1].end
 
                 if command in 'Zz':
                     if start_x is not None and start_y is not None:
                         cpx = start_x
                         cpy = start_y
-                else:
+                elif len(normalized) > 0:
                     cpx, cpy = normalized[-1].end
                     if ((command in 'Mm'
                          and (last_command is None
-- 
2.43.0


From 318376c5ffd742c32ade3dfda9428019aa9aab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 07/90] fix: PathParser.transform lost the current point after
 H and V

---
 svgpy/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index c6872d3..d4c8cf5 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1558,7 +1558,9 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                cpx = x if x is not None else cpx
+                cpy = y if y is not None else cpy
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From 8965776fa8607d5b44fe4ebf76cfbafea3472ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 08/90] fix: bearing commands broke smooth curves and repeated
 moves apart

---
 svgpy/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index d4c8cf5..cdd6a90 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1389,6 +1389,7 @@ class PathParser(object):
             elif command in 'Bb':
                 # bearing: 'B'|'b' angle+
                 bearing = path_segment.get_bearing(bearing)
+                command = last_command  # draws nothing
             elif command in 'Zz':
                 # pathclose: 'Z'|'z'
                 if (start_x is not None and start_y is not None
@@ -1471,6 +1472,7 @@ class PathParser(object):
             elif command in 'Bb':
                 # bearing: 'B'|'b' angle+
                 bearing = path_segment.get_bearing(bearing)
+                command = last_command  # draws nothing
             last_command = command
         return normalized_path_data
 
@@ -1569,6 +1571,7 @@ class PathParser(object):
             elif command in 'Bb':
                 # bearing: 'B'|'b' angle+
                 bearing = path_segment.get_bearing(bearing)
+                command = last_command  # draws nothing
             elif command in 'Zz':
                 # pathclose: 'Z'|'z'
                 transformed_path_data.append(SVGPathSegment('Z'))
-- 
2.43.0


From a23d99a77390b012a77c9db93d71adcafebf946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 09/90] fix: curve length raised math domain error when
 rounding made the speed negative

---
 svgpy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index cdd6a90..f4c54a1 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -61,7 +61,8 @@ class CubicBezierCurve(object):
     def _get_length_integrand(t, c0, c1, c2, c3, c4):
         # use Hartmut Henkel method
         # See http://www.circuitwizard.de/metapost/arclength.pdf
-        return math.sqrt(c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0)
+        return math.sqrt(max(
+            c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0, 0))
 
     def get_bbox(self, options=None, **extra):
         """Returns the bounding box of the cubic bezier curve.
-- 
2.43.0


From 242c5ed226b53a2d0241ea880a16178435ce5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 10/90] fix: bounding boxes lost the extremes of curves of
 lower degree

---
 svgpy/path.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index f4c54a1..e115b26 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -129,11 +129,8 @@ class CubicBezierCurve(object):
 
     def get_roots(self):
         # See http://floris.briolas.nl/floris/2009/10/bounding-box-of-cubic-bezier/
-        def _solve(_a, _b, _c, _s):
-            # {-b + sqrt(b^2 - 4ac) / (2a)} or {-b - sqrt(b^2 - 4ac) / (2a)}
-            s = 1 if _s else -1
-            return (-_b + s * math.sqrt(_b ** 2 - 4 * _a * _c)) / (2 * _a)
-
+        # a * t^2 + b * t + c = 0; the roots are q / a and c / q
+        # (no cancellation, even if a is zero but for rounding errors)
         roots = list()
         coefficients = self.get_coefficients()
         a = 3 * coefficients[0]
@@ -143,13 +140,12 @@ class CubicBezierCurve(object):
             d = b[i] ** 2 - 4 * a[i] * c[i]
             if d < 0:
                 continue
-            if a[i] == 0 and b[i] != 0:
-                roots.append(-c[i] / b[i])
-            elif d == 0 and a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-            elif a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-                roots.append(_solve(a[i], b[i], c[i], False))
+            s = math.sqrt(d)
+            q = -(b[i] + s) / 2 if b[i] >= 0 else (s - b[i]) / 2
+            if a[i] != 0:
+                roots.append(q / a[i])
+            if q != 0:
+                roots.append(c[i] / q)
         return filter(lambda t: 0 <= t <= 1, roots)
 
     def point(self, t):
-- 
2.43.0


From f16b1c3935afe3558ced9572bbfb0e3ed506473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 11/90] fix: PathParser.parse dropped a closepath directly
 followed by a command

---
 svgpy/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index e115b26..184a036 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1176,13 +1176,16 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
         r"((\d+(\.\d*)?([Ee][+-]?\d+)?)|(\d*\.\d+([Ee][+-]?\d+)?)))"
         r"(\s*,\s*|\s+)?")
 
+    # The flags of elliptical arcs need no separator: 'a1,1 0 0110,10'
+    RE_ARC_FLAG = re.compile(r"(?P<number>[01])(\s*,\s*|\s+)?")
+
     PATH_SEGMENT_TYPES = 'AaBbCcHhLlMmQqSsTtVvZz'
 
     _PATH_SEGMENT_VALUES_LENGTH = {
-- 
2.43.0


From f57a889248ccf56768dc1dca7db8b52aa0238542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 12/90] fix: PathParser.tostring dropped repeated closepath
 commands

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 184a036..647ee18 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1518,7 +1518,7 @@ class PathParser(object):
                     type(path_segment)))
             drawto_command = path_segment.tostring()
             path_type = path_segment.type
-            if last_path_type == path_type:
+            if last_path_type == path_type and path_type not in ('Z', 'z'):
                 drawto_command = drawto_command[1:]
             svg_path.append(drawto_command)
             last_path_type = path_type
-- 
2.43.0


From 112d9903d288093028e78c60ba571bcb80878be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 13/90] fix: PathParser.parse misread arc flags written without
 separators

---
 svgpy/path.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 647ee18..83995b6 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1497,11 +1497,22 @@ class PathParser(object):
                 args_sequence = list()
                 if len(values) > 0:
                     number_sequence = list()
-                    for it2 in PathParser.RE_NUMBER_SEQUENCE.finditer(values):
-                        number = it2.group('number')
-                        number_sequence.append(float(number))
                     argc = PathParser._PATH_SEGMENT_VALUES_LENGTH.get(
                         path_type.upper())
+                    pos = 0
+                    while True:
+                        isflag = (path_type in 'Aa'
+                                  and len(number_sequence) % argc in (3, 4))
+                        it2 = None
+                        if isflag:
+                            it2 = PathParser.RE_ARC_FLAG.match(values, pos)
+                        if it2 is None:
+                            it2 = PathParser.RE_NUMBER_SEQUENCE.search(
+                                values, pos)
+                        if it2 is None:
+                            break
+                        number_sequence.append(float(it2.group('number')))
+                        pos = it2.end()
                     args_sequence = zip(*[iter(number_sequence)] * argc)
                 for args in iter(args_sequence):
                     path_data.append(SVGPathSegment(path_type, *args))
-- 
2.43.0


From 66a4ddba27145650d75c602d2998b54d152556a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 14/90] fix: SVGLength operators lost the element the length
 belongs to

---
 svgpy/core.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..94f7271 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1051,14 +1051,14 @@ class SVGLength(object):
             self._number, self._unit = SVGLength.parse(value)
 
     def __abs__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = abs(x._number)
         return x
 
     def __add__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number += Decimal(other.value(x._unit))
@@ -1147,7 +1147,7 @@ class SVGLength(object):
         return self._number < o
 
     def __mul__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1159,16 +1159,16 @@ class SVGLength(object):
         return x
 
     def __neg__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = -x._number
         return x
 
     def __pos__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         return x
 
     def __pow__(self, power, modulo=None):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
 
@@ -1187,14 +1187,14 @@ class SVGLength(object):
     def __sub__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number -= Decimal(other.value(x._unit))
         return x
 
     def __truediv__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1245,8 +1245,8 @@ class SVGLength(object):
 
     def isrelative(self):
         return self._unit in [
-            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CHS,
-            SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
+            SVGLength.TYPE_EMS, SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+            SVGLength.TYPE_CHS, SVGLength.TYPE_ICS, SVGLength.TYPE_REMS,
             SVGLength.TYPE_PERCENTAGE,
             SVGLength.TYPE_VW, SVGLength.TYPE_VH,
             SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From a10719de4b40601c2138c53269d050a395763365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 15/90] fix: preserveAspectRatio="xMinYMid" was not recognised

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..093f779 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -703,6 +703,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From 30a3ca7e3921d4ab5e68c77fc025ffbd2a48a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 16/90] fix: svg sizes in vw, vh, vmin and vmax recursed or
 ignored their number

---
 svgpy/base.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 093f779..6a16fdd 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -273,16 +273,15 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                                 direction=SVGLength.DIRECTION_HORIZONTAL)
                 unit = vpw.unit
                 if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
+                    vpw = vpw.value(unit) / 100 * parent_vpw
                 elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
+                    vpw = vpw.value(unit) / 100 * parent_vph
                 elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
+                    vpw = vpw.value(unit) / 100 \
+                          * max(parent_vpw, parent_vph)
                 elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
+                    vpw = vpw.value(unit) / 100 \
+                          * min(parent_vpw, parent_vph)
 
             _height = root.get('height', 'auto')
             if _height == 'auto':
@@ -295,15 +294,16 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                                 direction=SVGLength.DIRECTION_VERTICAL)
                 unit = vph.unit
                 if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
+                    vph = vph.value(unit) / 100 * parent_vph
                 elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
+                    vph = vph.value(unit) / 100 * parent_vpw
                 elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
+                    vph = vph.value(unit) / 100 \
+                          * max(parent_vpw, parent_vph)
                 elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
+                    vph = vph.value(unit) / 100 \
+                          * min(parent_vpw, parent_vph)
+            parent_vpw = vpw
             parent_vph = vph
         if len(roots) == 0:
             vpx = SVGLength(0)
@@ -315,26 +315,26 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                             direction=SVGLength.DIRECTION_HORIZONTAL)
             unit = vpx.unit
             if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                vpx = vpx.value(unit) / 100 * vpw
             elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+                vpx = vpx.value(unit) / 100 * vph
             elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
+                vpx = vpx.value(unit) / 100 * max(vpw, vph)
             elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
+                vpx = vpx.value(unit) / 100 * min(vpw, vph)
 
             vpy = SVGLength(root.get('y', '0'),
                             context=root,
                             direction=SVGLength.DIRECTION_VERTICAL)
             unit = vpy.unit
             if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
+                vpy = vpy.value(unit) / 100 * vph
             elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
+                vpy = vpy.value(unit) / 100 * vpw
             elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
+                vpy = vpy.value(unit) / 100 * max(vpw, vph)
             elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+                vpy = vpy.value(unit) / 100 * min(vpw, vph)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From e98f1eeda9b11b36a9737cb81118a2a5240ba20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 17/90] fix: viewport transform mixed the units of sizes and
 offsets

---
 svgpy/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 6a16fdd..d69e723 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -526,6 +526,8 @@ class SVGGraphicsElement(SVGElement):
         meet_or_slice = par.meet_or_slice
         if meet_or_slice == SVGPreserveAspectRatio.SVG_MEETORSLICE_UNKNOWN:
             meet_or_slice = SVGPreserveAspectRatio.SVG_MEETORSLICE_MEET
+        ex, ey, ew, eh = (x.value() for x in (ex, ey, ew, eh))
+        vbx, vby, vbw, vbh = (x.value() for x in (vbx, vby, vbw, vbh))
         sx = ew / vbw
         sy = eh / vbh
         if align != SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_NONE:
@@ -561,8 +563,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From f64c0c401e8f39f30ce785ddc690998702dc1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 18/90] fix: transforms outside a nested svg element were left
 out of its CTM

---
 svgpy/base.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index d69e723..c8a981f 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -394,22 +394,21 @@ class SVGGraphicsElement(SVGElement):
             scale = farthest.current_scale
             tx, ty = farthest.current_translate
             ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
-
-        transform_list = SVGTransformList()
+        transforms = list()
         element = self
         while element is not None:
+            if element in roots:
+                vtm = element.get_viewport_transformation_matrix(
+                    recursive=False)
+                transforms.insert(0, vtm)
             if element.istransformable():
                 transform = element.transform
                 if transform is not None:
-                    transform_list[0:0] = transform
-            if element.local_name in ('svg', 'symbol'):
+                    transforms.insert(0, transform.matrix)
+            if element is roots[0]:
                 break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
+        for matrix in transforms:
             ctm *= matrix
         return ctm
 
-- 
2.43.0


From 5ac4f97be54bbdd02ef29e8c3713463572ac4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 19/90] fix: path data of use and group elements misapplied
 transforms

---
 svgpy/base.py    | 7 +------
 svgpy/element.py | 7 ++-----
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index c8a981f..9544df6 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -461,7 +461,7 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
@@ -492,11 +492,6 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list is not None:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
         if transform_list is not None:
             matrix = transform_list.matrix
diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..24894e3 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1098,12 +1098,9 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
-        path_data = root.get_path_data(settings)
-
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        path_data = root.get_transformed_path_data(settings)
 
+        transform_list = SVGTransformList()
         geometry = self.get_computed_geometry()
         x = geometry['x']
         y = geometry['y']
-- 
2.43.0


From 8327ac36227ab31df52720d8f9de0ad96fc4dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 20/90] fix: ellipse radius auto ignored the axis its
 percentage refers to

---
 svgpy/element.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 24894e3..16ff4d8 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -289,21 +289,19 @@ class SVGEllipseElement(SVGGeometryElement):
         # Percentages: refer to the size of the current SVG viewport
         _ry = self.get('ry', 'auto')
 
-        if _rx != 'auto' and _ry == 'auto':
-            _ry = _rx
-        elif _rx == 'auto' and _ry != 'auto':
-            _rx = _ry
-
-        if _rx == 'auto' and _ry == 'auto':
-            rx = 0
-            ry = 0
-        else:
+        rx = ry = 0
+        if _rx != 'auto':
             rx = SVGLength(_rx,
                            context=self,
                            direction=SVGLength.DIRECTION_HORIZONTAL).value()
+        if _ry != 'auto':
             ry = SVGLength(_ry,
                            context=self,
                            direction=SVGLength.DIRECTION_VERTICAL).value()
+        if _rx == 'auto':
+            rx = ry
+        elif _ry == 'auto':
+            ry = rx
         geometry['rx'] = rx
         geometry['ry'] = ry
 
-- 
2.43.0


From 0209cde52d006456d06fc387697274fd627fb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 21/90] fix: CSS numeric types ignored percentages when
 combined

---
 svgpy/css/types.py | 73 +++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..07389cf 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -174,44 +174,42 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         elif percent_hint1 is None and percent_hint2 is not None:
             CSSNumericType.apply_percent_hint(type1, percent_hint2)
 
-        final_type = CSSNumericType()
-        base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
+        def is_same(t1, t2):
+            return all(t1.get(key, 0) == t2.get(key, 0)
+                       for key in base_type_keys)
+
+        base_type_keys = [CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
-        keys1 = {key for key in set(type1) & base_type_keys
-                 if type1[key] != 0}
-        keys2 = {key for key in set(type2) & base_type_keys
-                 if type2[key] != 0}
-        if (all(key in type2 for key in keys1)
-                and all(key in type1 for key in keys2)
-                and all(type1[key] == type2[key]
-                        for key in keys1 | keys2)):
-            final_type.update(type1)
-            for key in type2:
-                if key not in final_type:
-                    final_type[key] = type2[key]
-            return final_type
-
-        if (any([type1.percent, type2.percent])
-                and (any([type1[key] for key in type1
-                          if key != CSSNumericType.PERCENT])
-                     or any([type2[key] for key in type2
-                             if key != CSSNumericType.PERCENT]))):
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT]
+        if is_same(type1, type2) or (
+                not all([type1.percent, type2.percent])
+                and all(type1.get(key, 0) == type2.get(key, 0) == 0
+                        for key in base_type_keys[:-1])):
+            final_type = type1
+        elif (any([type1.percent, type2.percent])
+              and any([type_.get(key) for type_ in (type1, type2)
+                       for key in base_type_keys
+                       if key != CSSNumericType.PERCENT])):
             for key in base_type_keys:
-                value1 = type1.get(key, 0)
-                value2 = type2.get(key, 0)
-                if any([value1, value2]) and value1 != value2:
-                    CSSNumericType.apply_percent_hint(type1, key)
-                    CSSNumericType.apply_percent_hint(type2, key)
-                if type1.get(key, 0) != type2.get(key, 0):
-                    return None
-            final_type.update(type1)
-            for key in set(type2) & base_type_keys:
-                if key not in final_type and type2[key] != 0:
-                    final_type[key] = type2[key]
-            return final_type
-
-        return None
+                if key == CSSNumericType.PERCENT:
+                    continue
+                hinted1 = CSSNumericType.apply_percent_hint(
+                    type1.copy(), key)
+                hinted2 = CSSNumericType.apply_percent_hint(
+                    type2.copy(), key)
+                if is_same(hinted1, hinted2):
+                    type2 = hinted2
+                    final_type = hinted1
+                    break
+            else:
+                return None
+        else:
+            return None
+        for key in type2:
+            if key not in final_type and type2[key] != 0:
+                final_type[key] = type2[key]
+        return final_type
 
     @staticmethod
     def apply_percent_hint(type_, hint):
@@ -326,7 +324,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         final_type.update(type1)
         base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT}
         for key in set(type2) & base_type_keys:
             power = type2[key]
             if key in final_type:
-- 
2.43.0


From 94440adacec352b6f77c25d61f893efa244e7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 22/90] fix: CSSMathInvert changed the type of its operand

---
 svgpy/css/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 07389cf..67f2a82 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1262,9 +1262,10 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
-- 
2.43.0


From 3961f2b149197e087293da138688573c1923d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 23/90] fix: CSS sums and conversions ignored the powers of
 units

---
 svgpy/css/types.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 67f2a82..7a21268 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1150,15 +1150,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
@@ -1551,9 +1543,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
-- 
2.43.0


From 0471d5c1fcebe926e539aad443243c9c71fdd6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 24/90] fix: CSSNumericValue.equals never held for negated,
 inverted and clamped values

---
 svgpy/css/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7a21268..1c1f788 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1076,6 +1076,18 @@ class CSSNumericValue(CSSStyleValue):
                     and isinstance(item, CSSUnitValue)):
                 if self.unit != item.unit or self.value != item.value:
                     return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             elif ((isinstance(self, CSSMathSum)
                    and isinstance(item, CSSMathSum))
                   or (isinstance(self, CSSMathProduct)
-- 
2.43.0


From 9cf6de05b56de67c3df40c5606abba26c3a8439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 25/90] fix: CSS math text lost the parentheses of sums nested
 in min() and max()

---
 svgpy/css/types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1c1f788..eed6649 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1297,7 +1297,10 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
+        s += '1 / ' + self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1445,8 +1448,11 @@ class CSSMathNegate(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += '-'
-        s += self._value.tostring(**kwargs)
+        s += self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1508,6 +1514,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1587,6 +1594,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From 10f5e67cfe30bd9543f99bee411cbc17e2b92964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:10 +0000
Subject: [PATCH 26/90] fix: CSSUnparsedValue inserted on item assignment and
 printed while writing

---
 svgpy/css/types.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index eed6649..ab702e2 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1796,24 +1796,25 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         if isinstance(index, int):
             values = [value]
         else:  # elif isinstance(index, slice):
-            values = value
-        for item in values:
-            if not isinstance(item, (str, CSSVariableReferenceValue)):
-                raise TypeError("Expected str or CSSVariableReferenceValue,"
-                                " got " + repr(type(item)))
-
-        if isinstance(index, int):
-            self._tokens.insert(index, value)
-        else:
-            self._tokens[index] = value
+            values = list(value)
+        CSSUnparsedValue._check_members(values)
+        self._tokens[index] = values if isinstance(index, slice) else value
 
     @property
     def length(self):
         """int: The number of str and CSSVariableReferenceValue objects."""
         return len(self)
 
+    @staticmethod
+    def _check_members(values):
+        for item in values:
+            if not isinstance(item, (str, CSSVariableReferenceValue)):
+                raise TypeError("Expected str or CSSVariableReferenceValue,"
+                                " got " + repr(type(item)))
+
     def insert(self, index, value):
-        self[index] = value
+        CSSUnparsedValue._check_members([value])
+        self._tokens.insert(index, value)
 
     def tostring(self, **kwargs):
         if self._css_text is not None:
@@ -1822,7 +1823,6 @@ class CSSUnparsedValue(CSSStyleValue, MutableSequence, Iterable):
         for token in self._tokens:
             if isinstance(token, CSSVariableReferenceValue):
                 token = token.tostring(**kwargs)
-            print(repr(token))
             s.append(token)
         return ''.join(s)
 
-- 
2.43.0


From f7aae7f41c772d7c05fefbfb4b7447847e753506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 27/90] fix: to_sum failed on terms that follow one of another
 unit

---
 svgpy/css/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ab702e2..9b7a7db 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1180,7 +1180,7 @@ class CSSNumericValue(CSSStyleValue):
         result = list()
         for unit in units:
             temp = CSSUnitValue(0, unit)
-            for value in list(values):
+            for index, value in enumerate(values):
                 canonical_unit1 = UnitType.get_canonical_unit(value.unit)
                 canonical_unit2 = UnitType.get_canonical_unit(unit)
                 if (value.unit == unit
@@ -1188,7 +1188,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    del values[index]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From 7141ff658c5b42178e7c396ef65f47b8efab10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 28/90] fix: (aspect-ratio < x) and (aspect-ratio > x) held for
 equal ratios

---
 svgpy/css/mediaquery.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..f1c5f50 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -205,20 +205,22 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ['aspect-ratio', 'device-aspect-ratio']):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            try:
+                left_ratio = Fraction(_RE_WHITESPACE.sub('', left_value))
+                right_ratio = Fraction(_RE_WHITESPACE.sub('', right_value))
+            except (ValueError, ZeroDivisionError) as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
+            logger.debug('feature \'{}\': {} {} {}'.format(
+                name, repr(left_ratio), op, repr(right_ratio)))
+            if not ((left_ratio == right_ratio and op[-1] == '=')
+                    or (left_ratio > right_ratio and op[0] == '>')
+                    or (left_ratio < right_ratio and op[0] == '<')):
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
-- 
2.43.0


From d5258797ab473c2d100d45564be012878acee961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 29/90] fix: media queries ignored nested conditions, line
 breaks and unspaced or = ranges

---
 svgpy/css/mediaquery.py | 96 ++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index f1c5f50..f54bc6d 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -37,24 +37,16 @@ _RE_MEDIA_QUERY = re.compile(
     r"|(?P<media_query>(not\s+|only\s+)?[^ \n\t]+(\s+and\s+(\(.+\))+)?)",
     re.IGNORECASE | re.MULTILINE)
 
-_RE_MEDIA_IN_PARENS = re.compile(
-    r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
-    r"|(?P<media_not>not\s+\(.+\))"
-    r"|(?P<media_in_parens>\(.+\))"
-    r"|(\s+(?P<op>(and|or))\s+)",
-    re.IGNORECASE | re.MULTILINE)
+_RE_MEDIA_CONDITION = re.compile(
+    r"not\s+\(|\(",
+    re.IGNORECASE)
 
 _RE_MF_PLAIN = re.compile(
-    r'(\(\s*(?P<mf_name>\S+)\s*:\s*(?P<mf_value>\S+)\s*\))',
-    re.MULTILINE)
+    r'\(\s*(?P<mf_name>[^\s:<>=]+)\s*:\s*(?P<mf_value>[^:<>=]*[^\s:<>=])\s*\)')
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
-    re.MULTILINE)
+    r"\(\s*(?P<left>[^<>= ]+)\s*(?P<op>[<>]=?|=)\s*(?P<right>[^<>=) ]+)\s*"
+    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>=) ]+)\s*)?\)")
 
 _RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
 
@@ -84,7 +76,7 @@ def parse(query):
     node_list = list()
     media_query_list = query.strip().lower().split(',')
     for media_query in media_query_list:
-        media_query = media_query.strip()
+        media_query = _RE_WHITESPACE.sub(' ', media_query.strip())
         if len(media_query) == 0:
             continue
         node = dict()
@@ -143,10 +135,10 @@ def _match_node(node, conditions, compare_func, not_op=False, user_data=None):
                                                user_data)
             if result and media and matched_media is None:
                 matched_media = media
-        elif expr == MQ_EXPR_UNARY_OP:
-            # <media-not>
+        elif expr in [MQ_EXPR_UNARY_OP, MQ_EXPR_BOOL_OP]:
+            # <media-not> | <media-condition>
             result, media = _match_node(child, conditions, compare_func,
-                                        not_op=True, user_data=user_data)
+                                        user_data=user_data)
             if result and media and matched_media is None:
                 matched_media = media
         else:
@@ -369,6 +361,23 @@ def _parse_media_not(query, parent):
     return parent
 
 
+def _split_media_condition(query):
+    # '(a) and not (b)' -> ['(a)', 'and', 'not', '(b)']
+    parts = ['']
+    depth = 0
+    for char in query:
+        if depth == 0 and (char == '(' or char.isspace()):
+            parts.append('')
+        if char == '(':
+            depth += 1
+        parts[-1] += char
+        if char == ')':
+            depth = max(depth - 1, 0)
+            if depth == 0:
+                parts.append('')
+    return [part.strip() for part in parts if len(part.strip()) > 0]
+
+
 def _parse_media_in_parens(query, parent):
     expr = parent.setdefault(MQ_EXPR, MQ_EXPR_BOOL_OP)
     if expr == MQ_EXPR_UNARY_OP:
@@ -376,33 +385,32 @@ def _parse_media_in_parens(query, parent):
     else:
         node = parent
     node.setdefault(MQ_OPS, [])
-    for it in _RE_MEDIA_IN_PARENS.finditer(query):
-        # <mf-plain>
-        mf_plain = it.group('mf_plain')
-        if mf_plain:
-            _parse_mf_plain(mf_plain, parent)
-
-        # <mf-boolean>
-        mf_boolean = it.group('mf_boolean')
-        if mf_boolean:
-            _parse_mf_boolean(mf_boolean, parent)
-
-        # <mf-range>
-        mf_range = it.group('mf_range')
-        if mf_range:
-            _parse_mf_range(mf_range, parent)
+    values = node.setdefault(MQ_VALUES, [])
+    media_not = False
+    for part in _split_media_condition(query):
+        if part in ['and', 'or']:
+            # and | or
+            if node.get(MQ_OP) is None:
+                node[MQ_OP] = part
+            node[MQ_OPS].append(part)
+            continue
+        elif part == 'not':
+            media_not = True
+            continue
 
-        # <media-not>
-        media_not = it.group('media_not')
         if media_not:
-            _parse_media_not(media_not, parent)
-
-        # and | or
-        op = it.group('op')
-        if op:
-            if node.get(MQ_OP) is None:
-                node[MQ_OP] = op
-            node[MQ_OPS].append(op)
+            # <media-not>
+            media_not = False
+            values.append(_parse_media_not('not ' + part, dict()))
+        elif _RE_MEDIA_CONDITION.match(part[1:].lstrip()):
+            # <media-condition>
+            values.append(_parse_media_query(part[1:-1].strip(), dict()))
+        elif _RE_MF_PLAIN.fullmatch(part):
+            _parse_mf_plain(part, parent)
+        elif _RE_MF_RANGE.fullmatch(part):
+            _parse_mf_range(part, parent)
+        else:
+            _parse_mf_boolean(part, parent)
     return parent
 
 
@@ -416,7 +424,7 @@ def _parse_mf_boolean(query, parent):
         values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('() '),
     })
     values.append(node)
     return node
-- 
2.43.0


From 5040ab7269d7c0ea3e4d6020d562720e8f1fe8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 30/90] fix: evaluating a media query failed in a viewport of
 no height

---
 svgpy/window.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..c28b434 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -15,7 +15,6 @@
 
 from abc import ABC, abstractmethod
 from collections.abc import Collection
-from fractions import Fraction
 from io import StringIO
 from logging import getLogger
 
@@ -724,14 +723,15 @@ class MediaQueryList(object):
         else:
             width = win.inner_width
             height = win.inner_height
-        aspect_ratio = Fraction(int(width), int(height))
+        aspect_ratio = '{}/{}'.format(int(width), int(height))
         screen = win.screen
-        device_aspect_ratio = Fraction(int(screen.width), int(screen.height))
+        device_aspect_ratio = '{}/{}'.format(int(screen.width),
+                                             int(screen.height))
         conditions = {
             'media': screen.media,
             'width': '{}px'.format(width),
             'height': '{}px'.format(height),
-            'aspect-ratio': '{}'.format(aspect_ratio),
+            'aspect-ratio': aspect_ratio,
             'orientation': screen.orientation.type,
             'resolution': '{}dppx'.format(win.device_pixel_ratio),
             'scan': screen.scan,
@@ -746,7 +746,7 @@ class MediaQueryList(object):
             # deprecated media features
             'device-width': '{}px'.format(screen.width),
             'device-height': '{}px'.format(screen.height),
-            'device-aspect-ratio': '{}'.format(device_aspect_ratio),
+            'device-aspect-ratio': device_aspect_ratio,
         }
         matches, _ = mq.match(self._tree, conditions, _mql_compare,
                               user_data=context)
-- 
2.43.0


From 0c902f77e6b836ce6cd17647c6c56b7f12d07b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 31/90] fix: DOMTokenList kept repeated tokens, split tokens at
 other white space and altered assigned lists

---
 svgpy/dom.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..78801f6 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -30,6 +30,8 @@ from .utils import QualifiedName, get_elements_by_class_name, \
     is_ascii_whitespace, style_to_dict
 
 
+_RE_ASCII_WHITESPACE = re.compile(r'[\t\n\f\r ]+')
+
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
 
 # https://www.w3.org/TR/xml/#NT-Name
@@ -203,28 +205,32 @@ class DOMTokenList(MutableSequence):
         return repr(list(self._tokens))
 
     def __setitem__(self, index, value):
+        tokens = list(self._tokens)
         if isinstance(value, str):
-            if value in self._tokens:
+            if value in tokens:
                 return
+            elif len(value) == 0:
+                del tokens[index]
+            else:
+                self._validate_token(value)
+                tokens[index] = [value] if isinstance(index, slice) else value
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
-            if len(value) == 0:
-                return
+            self._validate_tokens(value)
+            others = list(tokens)
+            del others[index]
+            tokens[index] = [token for token in dict.fromkeys(value)
+                             if token not in others]
         else:
             raise TypeError('Expected str or list[str], got {}'.format(
                 type(value)))
-        tokens = list(self._tokens)
-        tokens[index] = value
         self._set_tokens(tokens)
 
     @property
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
-        return tokens
+        tokens = _RE_ASCII_WHITESPACE.split(value)
+        return tuple(dict.fromkeys(token for token in tokens if token))
 
     @property
     def length(self):
@@ -237,7 +243,7 @@ class DOMTokenList(MutableSequence):
         return ' '.join(self._tokens)
 
     def _set_tokens(self, tokens):
-        value = ' '.join(tokens).strip()
+        value = ' '.join(tokens)
         if len(value) == 0:
             if self._local_name in self._owner_element.attrib:
                 del self._owner_element.attrib[self._local_name]
@@ -339,6 +345,7 @@ class DOMTokenList(MutableSequence):
         Returns:
             bool: Returns True if `token` is now present, and False otherwise.
         """
+        self._validate_token(token)
         if token in self._tokens:
             if force in (None, False):
                 self.remove(token)
-- 
2.43.0


From e8f0b5279065b13e91fba1932331473dafe74dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 32/90] fix: dataset names with digits or hyphens could not be
 read back and empty values raised KeyError

---
 svgpy/dom.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 78801f6..a55f864 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -30,6 +30,8 @@ from .utils import QualifiedName, get_elements_by_class_name, \
     is_ascii_whitespace, style_to_dict
 
 
+_RE_ASCII_UPPERCASE = re.compile(r'[A-Z]')
+
 _RE_ASCII_WHITESPACE = re.compile(r'[\t\n\f\r ]+')
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -123,9 +125,6 @@ class DOMStringMap(MutableMapping):
         return repr({key: value for key, value in self.items()})
 
     def __setitem__(self, key, value):
-        if value is None or len(value) == 0:
-            del self[key]
-            return
         name = self._convert_name(key)
         if not self._validate_name(name):
             raise InvalidCharacterError("The string contains invalid "
@@ -134,32 +133,16 @@ class DOMStringMap(MutableMapping):
 
     def _convert_key(self, name):
         _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return _RE_DOM_STRING_MAP_INVALID_SYNTAX.sub(
+            lambda matched: matched.group()[1].upper(),
+            _name)
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
             raise ValueError('Invalid syntax: ' + repr(key))
-        name = self._prefix
-        for ch in key:
-            if ch.isupper():
-                name += '-'
-            name += ch
-        return name.lower()
+        return self._prefix + _RE_ASCII_UPPERCASE.sub(
+            lambda matched: '-' + matched.group().lower(),
+            key)
 
     def _validate_name(self, name):
         _ = self
@@ -171,7 +154,8 @@ class DOMStringMap(MutableMapping):
     def keys(self):
         keys = [self._convert_key(name)
                 for name in self._owner_element.attributes
-                if name.startswith(self._prefix) and name.islower()]
+                if name.startswith(self._prefix)
+                and _RE_ASCII_UPPERCASE.search(name) is None]
         return KeysView(keys)
 
 
-- 
2.43.0


From 7d586e9bcedde40ca097cdcd2ee45d9d2641960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 33/90] fix: nodes could be inserted into themselves and failed
 appends left half of the nodes moved

---
 svgpy/dom.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a55f864..0dbab0c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -699,6 +699,13 @@ class Node(ABC):
                 "This node type '{}' cannot insert inside nodes of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        parent = self
+        while parent is not None:
+            if parent is node:
+                raise HierarchyRequestError(
+                    "This node type '{}' cannot insert inside itself".format(
+                        node.__class__.__name__))
+            parent = parent.parent_node
         return True
 
     def ensure_pre_remove_validity(self, child):
@@ -1590,13 +1597,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
         data = ''
         target = self
         for node in nodes:
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
             if len(data) > 0:
                 tail = False if target == self else True
                 node_append_data(target, data, tail)
-- 
2.43.0


From 23f00ab5b69cb1abf260544dba65b2981d6b1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 34/90] fix: extend lost the nodes of an iterator and
 text_content kept every other child

---
 svgpy/dom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0dbab0c..17d1848 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1538,7 +1538,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
     @text_content.setter
     def text_content(self, text):
-        for child in iter(self):
+        for child in list(self):
             self.remove(child)
         self.text = text
 
@@ -1732,9 +1732,11 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
 
         Extends the current children by the nodes in the iterable.
         """
-        owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
+        owner_document = self.owner_document
+        for node in nodes:
             node.attach_document(owner_document)
         super().extend(nodes)
 
-- 
2.43.0


From 4ccf0b1460f6253c23d6d4c5bf84b71af49c7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 35/90] fix: Element.prepend failed or reordered nodes that are
 already children or precede an empty element

---
 svgpy/dom.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 17d1848..0cf5a0f 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2200,7 +2200,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
+        first_child = next((child for child in self.child_nodes
+                            if not any(child is node for node in nodes)),
+                           None)
         data = ''
         target = self
         text = '' if self.text is None else self.text
@@ -2210,7 +2215,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
             if len(data) > 0:
                 tail = False if target == self else True
                 node_prepend_data(target, data, tail)
@@ -2218,7 +2222,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
             else:
                 first_child.addprevious(node)
             target = node
-- 
2.43.0


From 4e6df2323865539f0dde0b50da141ca2ca0f0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 36/90] fix: get_root_node of removed nodes returned the root
 of the tree they had left

---
 svgpy/dom.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0cf5a0f..0d98b9a 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -81,6 +81,24 @@ def node_insert_before(parent, node, child=None):
     return node
 
 
+def node_get_root(node):
+    """Returns the root node of the tree that contains the node.
+
+    Comments and processing instructions beside the document element have
+    the document element as their root node.
+    """
+    parent = node.getparent()
+    while parent is not None:
+        node = parent
+        parent = node.getparent()
+    root = node.getroottree().getroot()
+    if (any(sibling is root for sibling in node.itersiblings())
+            or any(sibling is root
+                   for sibling in node.itersiblings(preceding=True))):
+        return root
+    return node
+
+
 def node_prepend_data(node, data, tail=True):
     if tail:
         text = '' if node.tail is None else node.tail
@@ -1265,10 +1283,7 @@ class Comment(etree.CommentBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.CommentBase.insert().
@@ -2110,10 +2125,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def has_attribute(self, qualified_name):
         """Returns True if an attribute with the specified name exists;
@@ -2574,10 +2586,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
         Returns:
             Node: A root node.
         """
-        root = self.getroottree().getroot()
-        if root is None:
-            root = self
-        return root
+        return node_get_root(self)
 
     def insert(self, index, node):
         """Reimplemented from lxml.etree.PIBase.insert().
-- 
2.43.0


From 8d0c46768b4d730c88521648816433d452a801b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 37/90] fix: Document.replace removed a node replaced by
 itself, prepend misplaced moved nodes

---
 svgpy/window.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index c28b434..6d9e268 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -586,7 +586,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 continue  # do nothing
             else:
                 if first_child is None:
-                    first_child = self.first_child
+                    first_child = next((child for child in self.child_nodes
+                                        if child not in nodes), root)
                 first_child.addprevious(node)
 
     def query_selector_all(self, selectors):
@@ -627,6 +628,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
+        if new_node == old_node:
+            return
         root = self._document_element
         if old_node == root:
             self.remove(old_node)
-- 
2.43.0


From d816db9fef36e97b6561933fcbe8604015d5d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 38/90] fix: relative URLs changed the base URL and resolved
 //host, ?query and #fragment wrongly

---
 svgpy/url.py | 51 +++++++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..ea8cf02 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -17,7 +17,8 @@ import os
 import re
 import sys
 from collections.abc import MutableMapping
-from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
+from urllib.parse import quote, quote_plus, unquote, urlencode, urljoin, \
+    urlsplit
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
     'ftp:': '21',
@@ -240,37 +241,23 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
-        done = False
-        try:
-            self._parse_url(url)
-            done = True
-        except ValueError:
-            if parsed_base is None:
-                raise
-        if not done:
-            if os.path.isabs(url):
-                parsed_base.pathname = url
-                parsed_base.search = ''
-                parsed_base.hash = ''
-            else:
-                if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
-                else:  # 'file:'
-                    parent_path = parsed_base.pathname
-                    if sys.platform.startswith('win'):
-                        parent_path = parent_path.lstrip('/')
-                    if not os.path.isdir(parent_path):
-                        parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
-                pathname = pathname.replace('\\', '/')
-                pr = urlsplit(pathname)
-                parsed_base.pathname = pr.path
-                parsed_base.search = pr.query
-                parsed_base.hash = pr.fragment
-            url = parsed_base.href
-            self._parse_url(url)
+        if parsed_base is not None and len(urlsplit(url).scheme) == 0:
+            # See [RFC3986] section 5.2.
+            protocol = parsed_base.protocol
+            base_url = parsed_base.tostring(
+                exclude_fragment=True)[len(protocol):]
+            if protocol == 'file:':
+                url = url.replace('\\', '/')
+                path = parsed_base.pathname
+                if sys.platform.startswith('win'):
+                    path = path.lstrip('/')
+                if (len(url) > 0 and url[0] not in '?#'
+                        and os.path.isdir(unquote(path))):
+                    base_url = '//' + parsed_base.pathname.rstrip('/') + '/'
+            # urljoin() resolves references in known schemes only
+            joined = urljoin('http:' + base_url, url)
+            url = protocol + joined[len('http:'):]
+        self._parse_url(url)
 
     def __repr__(self):
         return repr({'href': self.tostring(),
-- 
2.43.0


From 68ceeda5dcf6e1006ff98dc25c998d193a2c0aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 39/90] fix: URL host, port and protocol disagreed after one of
 them was set

---
 svgpy/url.py | 59 ++++++++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index ea8cf02..e73f45e 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -222,7 +222,6 @@ class URL(object):
         self._username = ''
         self._password = ''
         self._hostname = ''
-        self._host = ''
         self._port = ''
         self._pathname = ''
         self._search_params = URLSearchParams()
@@ -265,7 +264,7 @@ class URL(object):
                      'protocol': self._protocol,
                      'username': self._username,
                      'password': self._password,
-                     'host': self._host,
+                     'host': self.host,
                      'hostname': self._hostname,
                      'port': self._port,
                      'pathname': self._pathname,
@@ -291,11 +290,13 @@ class URL(object):
         """str: The URL's host and port (if different from the default port
         for the scheme).
         """
-        port = self.port
-        if len(port) > 0:
-            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
-                self._host = self._hostname
-        return self._host
+        port = self._port
+        if (len(self._hostname) == 0
+                or len(port) == 0
+                or _SPECIAL_SCHEMES_PORT_NUMBERS.get(
+                    self._protocol, '') == port):
+            return self._hostname
+        return '{}:{}'.format(self._hostname, port)
 
     @host.setter
     def host(self, host):
@@ -394,17 +395,10 @@ class URL(object):
     def port(self, port):
         if len(port) == 0:
             self._port = ''
-            self._host = self._hostname
             return
-        elif not port.isdigit() or int(port) > 2 ** 16 - 1:
+        elif not port.isdecimal() or int(port) > 2 ** 16 - 1:
             raise ValueError('Invalid port: ' + repr(port))
-        self._port = port
-        self._host = self._hostname
-        if (len(port) > 0
-                and len(self._host) > 0
-                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
-                    self._protocol, '') != port):
-            self._host += ':' + port
+        self._port = str(int(port))
 
     @property
     def protocol(self):
@@ -415,7 +409,8 @@ class URL(object):
     def protocol(self, protocol):
         if len(protocol) > 0:
             protocol = protocol.rstrip(':').lower()
-            if (not protocol[0].isalpha()
+            if (not protocol.isascii()
+                    or not protocol[:1].isalpha()
                     or (len(protocol) >= 2
                         and not all(ch.isalnum() or ch in '+-.'
                                     for ch in protocol[1:]))):
@@ -477,7 +472,7 @@ class URL(object):
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-            self._host = self._hostname = ''
+            self._hostname = ''
             if not hostname_state:
                 self._port = ''
             return
@@ -493,33 +488,23 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._host = self._hostname = host[:end]
+                hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._host = self._hostname = '[{}]'.format(host)
+                hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._host = self._hostname = host[:end]
+            hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._host = self._hostname = host
-        if not hostname_state:
-            # host state
-            if end < 0:
-                self._port = ''
-            else:
-                self.port = host[end + 1:]
-        else:
-            # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
-                port = host[end + 1:]
-                if len(port) > 0:
-                    self.port = port
+            hostname = host
+        port = host[end + 1:] if end >= 0 else ''
+        if not hostname_state or len(port) > 0:
+            self.port = port
+        self._hostname = hostname
 
     def _parse_url(self, url):
         pr = urlsplit(url)
@@ -529,7 +514,7 @@ class URL(object):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-            self._host = self._hostname = self._port = ''
+            self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
             self.hostname = pr.hostname
-- 
2.43.0


From 7b129ac2295d820ca69e3cf516f6aca79940bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 40/90] fix: URL queries kept percent-encoded text in
 search_params and lost + and = signs

---
 svgpy/url.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e73f45e..10fb27a 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -35,6 +35,11 @@ _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
     re.IGNORECASE)
 
 
+def _escape_percent(string):
+    # escapes U+0025 (%) where it would be read as a percent-encoded byte
+    return re.sub('%(?=[0-9A-Fa-f]{2})', '%25', string)
+
+
 def quote_numeric_character_references(query, quote_via=None, safe=''):
     def _quote(_string):
         if quote_via is None:
@@ -427,14 +432,16 @@ class URL(object):
         queries = list()
         # unsafe:
         # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        # U+002B (+) stands for U+0020 (SP)
+        safe = '!$%()*,-./:;=?@[\\]^_`{|}~'
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._search_params):
             value = self._search_params[key]
-            key = quote_numeric_character_references(key,
+            key = quote_numeric_character_references(_escape_percent(key),
                                                      quote_via=quote_plus,
-                                                     safe=safe)
-            value = quote_numeric_character_references(value,
+                                                     safe=safe.replace('=', '')
+                                                     )
+            value = quote_numeric_character_references(_escape_percent(value),
                                                        quote_via=quote_plus,
                                                        safe=safe)
             query = '{}={}'.format(key, value)
@@ -443,17 +450,18 @@ class URL(object):
 
     @search.setter
     def search(self, query):
-        query = query.lstrip('?')
+        if query.startswith('?'):
+            query = query[1:]
         self._search_params.clear()
         if len(query) == 0:
             return
         pairs = query.split('&')
         for pair in pairs:
-            kv = pair.split('=')
-            if len(kv) < 2:
-                kv.append('')
-            key = kv[0].replace('+', ' ')
-            value = kv[1].replace('+', ' ')
+            if len(pair) == 0:
+                continue
+            key, _, value = pair.partition('=')
+            key = unquote(key.replace('+', ' '))
+            value = unquote(value.replace('+', ' '))
             self._search_params[key] = value
 
     @property
@@ -521,7 +529,7 @@ class URL(object):
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
-        self.search = pr.query
+        self.search = '?' + pr.query
         self.hash = pr.fragment
 
     def tostring(self, exclude_fragment=False):
-- 
2.43.0


From 9602adb75d7f551e0778bee9825fd82c88dd7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 41/90] fix: URL fragments changed each time they were parsed

---
 svgpy/url.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 10fb27a..eec9454 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -284,10 +284,11 @@ class URL(object):
 
     @hash.setter
     def hash(self, fragment):
-        fragment = fragment.lstrip('#')
+        if fragment.startswith('#'):
+            fragment = fragment[1:]
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
-        self._hash = quote(unquote(fragment),
+        self._hash = quote(_escape_percent(unquote(fragment)),
                            safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~')
 
     @property
@@ -530,7 +531,7 @@ class URL(object):
         self.password = pr.password if pr.password is not None else ''
         self.pathname = pr.path
         self.search = '?' + pr.query
-        self.hash = pr.fragment
+        self.hash = '#' + pr.fragment
 
     def tostring(self, exclude_fragment=False):
         """Serializes an URL object.
-- 
2.43.0


From 7d1d338e3333672aea6cff3f9ed60a193206ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 42/90] fix: URL.href dropped a password without a user name

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index eec9454..739184e 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -551,7 +551,7 @@ class URL(object):
             if protocol not in ['about:', 'blob:', 'data:']:
                 parts.append('//')
             if len(host) > 0 and protocol != 'file:':
-                if len(self.username) > 0:
+                if len(self.username) > 0 or len(self.password) > 0:
                     parts.append(self.username)
                     if len(self.password) > 0:
                         parts.append(':' + self.password)
-- 
2.43.0


From 8d054f6a63f2a0bf760e03a00546057a4c0c2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 43/90] fix: assigning an invalid href left a half-changed URL
 or raised TypeError

---
 svgpy/url.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/url.py b/svgpy/url.py
index 739184e..170fb91 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -324,6 +324,7 @@ class URL(object):
 
     @href.setter
     def href(self, url):
+        URL(url)  # leaves this URL unchanged if it is not valid
         self._parse_url(url)
 
     @property
@@ -526,6 +527,8 @@ class URL(object):
             self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
+            if pr.hostname is None:
+                raise ValueError('Invalid URL: ' + repr(url))
             self.hostname = pr.hostname
         self.username = pr.username if pr.username is not None else ''
         self.password = pr.password if pr.password is not None else ''
-- 
2.43.0


From 1bcb35b043a77ab8c3333ba65d7fd4e57deb436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 44/90] fix: URL paths ending in dot segments lost their slash,
 relative ones their place

---
 svgpy/url.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 170fb91..ea70d42 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -384,7 +384,10 @@ class URL(object):
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
             pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
+            sep = (len(pathname) >= 2
+                   and pathname.rsplit('/', 1)[-1] in ['', '.', '..'])
+            if not pathname.startswith('/') and self._protocol != 'about:':
+                pathname = '/' + pathname
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
-- 
2.43.0


From eed71dd329eeb79e0d86df3da0b38b0cd6554c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 45/90] fix: the font shorthand took a unitless line-height for
 the font weight and kept repeated normal keywords

---
 svgpy/css/shorthands.py | 53 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..2dcc148 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -206,10 +206,12 @@ class ShorthandProperty(ABC):
 
     @staticmethod
     def _parse_css_declaration(property_name, component_list,
-                               set_initial_value=True):
+                               set_initial_value=True,
+                               longhand_names=None):
         components_map = OrderedDict()
         css_wide_keywords = list()
-        longhand_names = shorthand_property_map[property_name]
+        if longhand_names is None:
+            longhand_names = shorthand_property_map[property_name]
         for longhand_name in longhand_names:
             ShorthandProperty._parse_component_list(longhand_name,
                                                     component_list,
@@ -254,10 +256,51 @@ class ShorthandProperty(ABC):
 
 class FontShorthand(ShorthandProperty):
 
+    @staticmethod
+    def _font_size_index(component_list):
+        # returns the position of <font-size>, the last component which is
+        # supported by the 'font-size' property before <line-height> or
+        # <font-family>, or -1
+        descriptors = [css_property_descriptor_map[property_name]
+                       for property_name in shorthand_property_map['font'][:4]]
+        font_size = css_property_descriptor_map['font-size']
+        index = -1
+        for i, component in enumerate(component_list):
+            if component.type == 'whitespace':
+                continue
+            elif component == '/':
+                break
+            elif (component.type == 'ident'
+                  and component.lower_value in css_wide_keyword_set):
+                return -1
+            elif (component.type != 'number'
+                  and font_size.support(component)[0]):
+                index = i
+            elif not any(desc.support(component)[0] for desc in descriptors):
+                break
+        return index
+
     def set_css_declaration(self, component_list, priority):
-        components_map, _ = ShorthandProperty._parse_css_declaration(
-            'font',
-            component_list)
+        index = self._font_size_index(component_list)
+        if index < 0:
+            components_map, _ = ShorthandProperty._parse_css_declaration(
+                'font',
+                component_list)
+        else:
+            # [ <font-style> || <font-variant-css2> || <font-weight>
+            #  || <font-stretch-css3> ]?
+            # <font-size> [ / <line-height> ]? <font-family>
+            longhand_names = shorthand_property_map['font']
+            components_map, _ = ShorthandProperty._parse_css_declaration(
+                'font',
+                [x for x in component_list[:index]
+                 if not (x.type == 'ident' and x.lower_value == 'normal')],
+                longhand_names=longhand_names[:4])
+            components, _ = ShorthandProperty._parse_css_declaration(
+                'font',
+                component_list[index:],
+                longhand_names=longhand_names[4:])
+            components_map.update(components)
 
         font_variant_components = components_map.pop('font-variant-css2')
         shorthand = FontVariantShorthand(self._declarations)
-- 
2.43.0


From 48400d6fe5afd23f1c5ff3d9978c4190fec0afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 46/90] fix: mask text with one geometry box set both
 mask-origin and mask-clip

---
 svgpy/css/shorthands.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 2dcc148..0c82ebf 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -737,6 +737,12 @@ class MaskShorthand(ShorthandProperty):
         values = list()
         for property_name in shorthand_property_map['mask']:
             value = property_map[property_name]
+            if (property_name in ('mask-origin', 'mask-clip')
+                    and mask_origin != mask_clip):
+                # one <geometry-box> value sets both of them
+                if value == 'initial':
+                    desc = css_property_descriptor_map[property_name]
+                    value = desc.initial_value
             if value == 'initial':
                 continue
             elif property_name == 'mask-clip' and mask_origin == mask_clip:
-- 
2.43.0


From 7ac71d7ab969a429d7e811b4dae9e547ab667158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 47/90] fix: a style attribute kept sub-properties of a font
 shorthand that replaced or removed them

---
 svgpy/css/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..bd51876 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -26,7 +26,8 @@ from .longhands import Longhand
 from .props import PropertyDescriptor, PropertySyntax, \
     css_color_keyword_set, css_property_descriptor_map, css_wide_keyword_set
 from .screen import Screen, ScreenOrientation
-from .shorthands import Shorthand, font_sub_property_list
+from .shorthands import Shorthand, font_sub_property_list, \
+    get_longhand_list
 from .types import CSSKeywordValue, CSSImageValue, CSSMathClamp, \
     CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate, CSSMathOperator, \
     CSSMathProduct, CSSMathSum, CSSMathValue, CSSNumericBaseType, \
@@ -66,8 +67,7 @@ class _StyleAttribute(object):
         if Shorthand.is_shorthand(property_name):
             # shorthand
             # remove shorthand's sub-properties
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
+            for longhand_name in self._sub_properties(property_name):
                 if longhand_name in style_map:
                     updated = True
                     del style_map[longhand_name]
@@ -167,13 +167,18 @@ class _StyleAttribute(object):
         if len(result) > 0:
             updated = True
             style_map[property_name] = result
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
+            for longhand_name in self._sub_properties(property_name):
                 if longhand_name in style_map:
                     del style_map[longhand_name]
 
         return updated
 
+    @staticmethod
+    def _sub_properties(property_name):
+        # 'font' includes 'font-variant' and its longhands
+        return (list(Shorthand.longhands(property_name))
+                + get_longhand_list(property_name))
+
     def _update_style(self):
         attributes = self._owner_node.attributes
         if len(self._style_map) == 0:
-- 
2.43.0


From 8ed46562d56614010dd66ee2d9661f1d2c6ca173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 48/90] fix: the style attribute lost declarations with colons,
 semicolons or comments in them

---
 svgpy/utils.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..c4e7e4f 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -22,6 +22,8 @@ from pathlib import PurePath
 from urllib.parse import unquote
 from urllib.request import urlopen
 
+import tinycss2
+
 from .exception import InvalidCharacterError, NamespaceError
 from .url import Location, URL
 
@@ -248,11 +250,27 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+    result = OrderedDict()
+    items = [[]]
+    for token in tinycss2.parse_component_value_list(text,
+                                                     skip_comments=True):
+        if token == ';':
+            items.append([])
+        else:
+            items[-1].append(token)
+    for tokens in items:
+        if ':' not in tokens or any(x.type == 'error' for x in tokens):
+            continue
+        index = tokens.index(':')
+        key = ''.join(x.serialize() for x in tokens[:index]).strip()
+        if not key.startswith('--'):
+            key = key.lower()
+        value = tinycss2.serialize(tokens[index + 1:]).strip()
+        if len(key) == 0 or len(key.split()) > 1 or len(value) == 0:
+            continue
+        result.pop(key, None)
+        result[key] = value
+    return result
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From bfac35058cd30cd69b2ce29204b1ccdcc503ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 49/90] fix: a style object kept declarations its changed
 attribute no longer has, and wrote sub-properties before their shorthand

---
 svgpy/css/__init__.py | 73 ++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index bd51876..56989e3 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -55,7 +55,11 @@ class _StyleAttribute(object):
         self._owner_node = owner_node
         attr = owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
-        self._style_map = style_to_dict(style)
+        self._style_map = OrderedDict()
+        for property_name, value in style_to_dict(style).items():
+            for longhand_name in self._sub_properties(property_name):
+                self._style_map.pop(longhand_name, None)
+            self._style_map[property_name] = value
 
     def _remove(self, property_name, force=False):
         style_map = self._style_map
@@ -98,6 +102,20 @@ class _StyleAttribute(object):
 
         return updated
 
+    def _serialize(self):
+        style_map = self._style_map.copy()
+        items = []
+        for property_name in sorted(style_map, key='{}: '.format):
+            # a shorthand comes before its sub-properties
+            for shorthand_name in Longhand.shorthands(property_name):
+                if (shorthand_name in style_map and property_name
+                        in self._sub_properties(shorthand_name)):
+                    items.append(shorthand_name)
+            items.append(property_name)
+        return ' '.join(
+            dict_to_style({name: style_map[name]})
+            for name in OrderedDict.fromkeys(items))
+
     def _set(self, property_name, value, append=True, restore=False):
         style_map = self._style_map
         if not append and property_name not in style_map:
@@ -185,8 +203,7 @@ class _StyleAttribute(object):
             if 'style' in attributes:
                 del attributes['style']
             return
-        style = dict_to_style(self._style_map)
-        attributes['style'] = style
+        attributes['style'] = self._serialize()
 
     def update(self, property_name, value):
         updated = False
@@ -1314,6 +1331,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._property_map = OrderedDict()
         self._owner_node = owner_node
         self._inline_style = inline_style
+        self._style_text = ''
         self._readonly = False
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
@@ -1381,46 +1399,27 @@ class CSSStyleDeclaration(MutableMapping):
         # 'style' attribute => CSS declarations
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
         declarations = self._property_map
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
-        for property_name, value in property_map.items():
-            needs_update = False
-            priority = ''
-            if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
-            else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
+        if style != self._style_text:
+            # the attribute was changed from outside
+            self._style_text = style
+            declarations.clear()
+            for property_name, value in style_to_dict(style).items():
+                value, priority = self._split_priority(value)
                 self._set_property_internal(declarations,
                                             property_name,
                                             value,
                                             priority)
-
         return declarations
 
+    @staticmethod
+    def _split_priority(value):
+        declaration = tinycss2.parse_one_declaration('x:' + value,
+                                                     skip_comments=True)
+        if declaration.type == 'declaration' and declaration.important:
+            return tinycss2.serialize(declaration.value).strip(), 'important'
+        return value, ''
+
     def _parse_content(self, content):
         nodes = tinycss2.parse_declaration_list(content,
                                                 skip_comments=True,
@@ -1474,6 +1473,8 @@ class CSSStyleDeclaration(MutableMapping):
             return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
+        self._style_text = '' if attr is None else attr.value
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
-- 
2.43.0


From 7d05076ab9b6395515a58b3c1e70f804dd772db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 50/90] fix: marker and view elements can be created

SVGMarkerElement and SVGViewElement left get_path_data() abstract, so any
document with such an element raised TypeError.
---
 svgpy/element.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 16ff4d8..b1562b9 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -472,7 +472,9 @@ class SVGLineElement(SVGGeometryElement):
 class SVGMarkerElement(SVGGraphicsElement):
     # TODO: implement the SVGMarkerElement.
     """Represents the [SVG2] <marker> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        return []
 
 
 class SVGMeshElement(SVGGeometryElement):
@@ -1130,7 +1132,9 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
 class SVGViewElement(SVGGraphicsElement, SVGFitToViewBox, SVGZoomAndPan):
     # TODO: implement the SVGViewElement.
     """Represents the [SVG2] <view> element."""
-    pass
+
+    def get_path_data(self, settings=None):
+        return []
 
 
 class SVGElementClassLookup(etree.CustomElementClassLookup):
-- 
2.43.0


From 26758bf9b9fc4ff37b16b83ca252ed995017aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 51/90] fix: style rules match by their selectors, in order of
 specificity

Type selectors never matched in namespaced documents, combinators never
matched, the specificity of selectors was ignored and a string in an
@namespace rule was not read.
---
 svgpy/css/__init__.py | 29 +++++++++++---
 svgpy/style.py        | 93 +++++++++++++++++++++++++++++++++----------
 2 files changed, 95 insertions(+), 27 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 56989e3..3304710 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1296,7 +1296,7 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
             elif token.type == 'ident':
                 self._prefix = token.value
@@ -1406,10 +1406,10 @@ class CSSStyleDeclaration(MutableMapping):
             declarations.clear()
             for property_name, value in style_to_dict(style).items():
                 value, priority = self._split_priority(value)
-                self._set_property_internal(declarations,
-                                            property_name,
-                                            value,
-                                            priority)
+                self._set_parsed_property(declarations,
+                                          property_name,
+                                          value,
+                                          priority)
         return declarations
 
     @staticmethod
@@ -1429,7 +1429,10 @@ class CSSStyleDeclaration(MutableMapping):
                 property_name = node.name
                 value = tinycss2.serialize(node.value)
                 priority = 'important' if node.important else ''
-                self.set_property(property_name, value, priority)
+                self._set_parsed_property(self._property_map,
+                                          property_name,
+                                          value,
+                                          priority)
 
     def _set_css_declaration(self, declarations, property_name,
                              component_list, priority):
@@ -1444,6 +1447,20 @@ class CSSStyleDeclaration(MutableMapping):
         declarations[property_name] = value, priority
         return True
 
+    def _set_parsed_property(self, declarations, property_name, value,
+                             priority):
+        if not property_name.startswith('--'):
+            property_name = property_name.lower()
+        important = {key: item for key, item in declarations.items()
+                     if item[1] == 'important'}
+        self._set_property_internal(declarations,
+                                    property_name,
+                                    normalize_text(value),
+                                    priority)
+        if priority != 'important':
+            # important declarations win over later normal ones
+            declarations.update(important)
+
     def _set_property_internal(self, declarations, property_name, value,
                                priority):
         component_list = tinycss2.parse_component_value_list(
diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..2a5d8f1 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -14,7 +14,10 @@
 
 
 from logging import getLogger
+from operator import itemgetter
 
+from cssselect import parse as parse_selectors
+from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
 from .css import CSSParser, CSSRule, CSSStyleSheet
@@ -22,16 +25,13 @@ from .utils import normalize_url
 
 
 _SVG_UA_CSS_STYLESHEET = '''
-@namespace url(http://www.w3.org/2000/svg);
+@namespace svg url(http://www.w3.org/2000/svg);
 @namespace xml url(http://www.w3.org/XML/1998/namespace);
 
 svg|svg:not(:root), svg|hatch, svg|image, svg|marker, svg|pattern, svg|symbol,
 svg:not(:root), hatch, image, marker, pattern, symbol { overflow: hidden; }
 
-*:not(svg|svg),
-*:not(svg|foreignObject) > svg|svg,
-*:not(svg),
-*:not(foreignObject) > svg {
+* {
   transform-origin: 0 0;
 }
 
@@ -83,6 +83,35 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+class _XPathExpr(XPathExpr):
+
+    def add_name_test(self):
+        if self.element != '*':
+            self.add_condition('self::' + self.element)
+            self.element = '*'
+
+
+class _SelectorTranslator(cssselect.LxmlTranslator):
+    """Type selectors without a namespace prefix match elements in any
+    namespace, or in the default namespace of the style sheet.
+    """
+
+    xpathexpr_cls = _XPathExpr
+    default_namespace = None
+
+    def xpath_element(self, selector):
+        if selector.namespace:
+            return super().xpath_element(selector)
+        element = '*'
+        if selector.element:
+            element += '[local-name() = {}]'.format(
+                self.xpath_literal(selector.element))
+        if self.default_namespace is not None:
+            element += '[namespace-uri() = {}]'.format(
+                self.xpath_literal(self.default_namespace))
+        return self.xpathexpr_cls(element=element)
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
@@ -277,23 +306,35 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 
 
 def get_css_style(element, css_rules):
-    style = dict()
-    style_important = dict()
-    namespaces = element.nsmap.copy()
-    uri = namespaces.pop(None, None)
-    if uri is not None:
-        namespaces['svg'] = uri
+    declarations = list()
+    namespace_map = dict()
+    root = element.getroottree().getroot()
     for css_rule in css_rules:
+        # the scope of '@namespace' is its style sheet
+        style_sheet = id(css_rule.parent_style_sheet)
+        if style_sheet not in namespace_map:
+            namespaces = element.nsmap.copy()
+            uri = namespaces.pop(None, None)
+            if uri is not None:
+                namespaces['svg'] = uri
+            namespace_map[style_sheet] = namespaces, _SelectorTranslator()
+        namespaces, translator = namespace_map[style_sheet]
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
-                selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces)
-                matched = selector(element)
-                if len(matched) > 0 and element in matched:
-                    for key, (value, priority) in css_rule.style.items():
-                        style[key] = value
-                        if priority == 'important':
-                            style_important[key] = value
+                specificity = None
+                for selector in parse_selectors(css_rule.selector_text):
+                    path = translator.selector_to_xpath(selector)
+                    if (element in root.xpath(path, namespaces=namespaces)
+                            and (specificity is None
+                                 or selector.specificity() > specificity)):
+                        specificity = selector.specificity()
+                if specificity is not None:
+                    declarations.append((specificity, css_rule.style))
+            except etree.XPathEvalError as exp:
+                # undeclared namespace prefix
+                logger.info('XPathEvalError: {}: \'{}\''.format(
+                    exp,
+                    css_rule.selector_text))
             except cssselect.ExpressionError as exp:
                 logger.info('ExpressionError: {}: \'{}\''.format(
                     exp,
@@ -312,6 +353,16 @@ def get_css_style(element, css_rules):
             if len(css_rule.namespace_uri) > 0:
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
-                    prefix = 'svg'
-                namespaces[prefix] = css_rule.namespace_uri
+                    translator.default_namespace = css_rule.namespace_uri
+                else:
+                    namespaces[prefix] = css_rule.namespace_uri
+
+    # the later of equally specific rules wins
+    style = dict()
+    style_important = dict()
+    for _, css_style in sorted(declarations, key=itemgetter(0)):
+        for key, (value, priority) in css_style.items():
+            style[key] = value
+            if priority == 'important':
+                style_important[key] = value
     return style, style_important
-- 
2.43.0


From 907cbb744acc8d6f685f507e4c6c31bc67a92a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 52/90] fix: computed styles follow the cascade

Presentation attributes come before style rules, then the style attribute
and important declarations; non-inherited properties come from rules as
well, and 'initial', 'inherit' and 'unset' are resolved.
---
 svgpy/dom.py   | 34 ++++++++++++++++++-----------
 svgpy/style.py | 59 ++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 15 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 0d98b9a..1d1bddb 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,11 +23,11 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_css_rules, get_css_style, \
+from .style import get_cascaded_style, get_css_rules, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace
 
 
 _RE_ASCII_UPPERCASE = re.compile(r'[A-Z]')
@@ -1936,10 +1936,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
-
         inherited_props = \
             {'clip-rule': 'nonzero',
              'color': 'black',  # depends on user agent
@@ -2010,17 +2006,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # 'transform', 'transform-box', 'transform-origin',
         # 'vertical-align',
         css_rules = get_css_rules(self)
+        parent_style = None
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
-            _style = css_style.pop('style', None)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
-            css_style.update(css_style_important)
+            css_style = get_cascaded_style(element, css_rules)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
-                if value is not None and value not in ['inherit']:
+                if value == 'initial':
+                    value = inherited_props.pop(key, style.get(key))
+                    if value is not None:
+                        style[key] = value
+                elif (value is not None
+                        and value not in ['inherit', 'unset']):
                     if key == 'font':
                         # 'font' shorthand property
                         style[key] = value
@@ -2046,6 +2043,17 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         else:
                             style[key] = value
                         inherited_props.pop(key, None)
+            if element is self:
+                for key in iter(non_inherited_props):
+                    value = css_style.get(key)
+                    if value == 'inherit' and self.getparent() is not None:
+                        if parent_style is None:
+                            parent_style = \
+                                self.getparent().get_inherited_style()
+                        value = parent_style[key]
+                    elif value in [None, 'inherit', 'initial', 'unset']:
+                        value = non_inherited_props[key]
+                    style[key] = value
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
diff --git a/svgpy/style.py b/svgpy/style.py
index 2a5d8f1..c65a63a 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -20,7 +20,8 @@ from cssselect import parse as parse_selectors
 from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
-from .css import CSSParser, CSSRule, CSSStyleSheet
+from .css import CSSParser, CSSRule, CSSStyleDeclaration, CSSStyleSheet
+from .css.shorthands import Shorthand
 from .utils import normalize_url
 
 
@@ -83,6 +84,10 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+class _UserAgentStyleSheet(CSSStyleSheet):
+    pass
+
+
 class _XPathExpr(XPathExpr):
 
     def add_name_test(self):
@@ -150,6 +155,52 @@ def flatten_css_rules(element, css_rules):
     return flattened
 
 
+def get_cascaded_style(element, css_rules):
+    def _update(properties):
+        shorthand = Shorthand(
+            {key: (value, '') for key, value in properties.items()})
+        if len(shorthand.get_property_value('font')) > 0:
+            # the 'font' shorthand also resets these properties
+            style.update({
+                'font-kerning': 'auto',
+                'font-language-override': 'normal',
+                'font-size-adjust': 'none',
+            })
+        style.update(properties)
+
+    # the user-agent style sheet
+    style, style_important = get_css_style(
+        element, [x for x in css_rules if is_user_agent_rule(x)])
+
+    # presentation attributes
+    declarations = CSSStyleDeclaration()
+    for key, value in element.attrib.items():
+        if Shorthand.is_shorthand(key):
+            declarations.set_property(key, value, '')
+    _update({key: value for key, (value, _) in declarations.items()})
+    style.update((key, value) for key, value in element.attrib.items()
+                 if key != 'style' and not Shorthand.is_shorthand(key))
+
+    # style rules and the 'style' attribute
+    css_style, css_style_important = get_css_style(
+        element, [x for x in css_rules if not is_user_agent_rule(x)])
+    inline_style = CSSStyleDeclaration(owner_node=element, inline_style=True)
+    _update(css_style)
+    _update({key: value for key, (value, _) in inline_style.items()})
+    style.update(css_style_important)
+    style.update((key, value)
+                 for key, (value, priority) in inline_style.items()
+                 if priority == 'important')
+    style.update(style_important)
+
+    shorthand = Shorthand({key: (value, '') for key, value in style.items()})
+    for key in ('font-variant', 'mask', 'overflow', 'text-decoration'):
+        value = shorthand.get_property_value(key)
+        if len(value) > 0:
+            style[key] = value
+    return style
+
+
 def get_css_rules(element):
     css_rules = list()
     style_sheets = get_css_style_sheets(element)
@@ -163,7 +214,7 @@ def get_css_style_sheets(element):
     style_sheets = list()
 
     # user-agent style sheet
-    css_style_sheet = CSSStyleSheet()
+    css_style_sheet = _UserAgentStyleSheet()
     css_style_sheet.insert_rule(_SVG_UA_CSS_STYLESHEET)
     style_sheets.append(css_style_sheet)
 
@@ -305,6 +356,10 @@ def get_css_style_sheets_from_xml_stylesheet(root):
     return style_sheets
 
 
+def is_user_agent_rule(css_rule):
+    return isinstance(css_rule.parent_style_sheet, _UserAgentStyleSheet)
+
+
 def get_css_style(element, css_rules):
     declarations = list()
     namespace_map = dict()
-- 
2.43.0


From d8f004b36951dc53a741aef0dcd13f0f91a41c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 53/90] fix: an important declaration is kept over later normal
 ones

style_to_dict() let a later normal declaration of the same property
replace an important one.
---
 svgpy/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index c4e7e4f..55eac6f 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -29,6 +29,8 @@ from .url import Location, URL
 
 _ASCII_WHITESPACE = '\t\n\f\r\x20'
 
+_RE_IMPORTANT = re.compile(r'!\s*important$', re.IGNORECASE)
+
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
@@ -268,6 +270,10 @@ def style_to_dict(text):
         value = tinycss2.serialize(tokens[index + 1:]).strip()
         if len(key) == 0 or len(key.split()) > 1 or len(value) == 0:
             continue
+        if (_RE_IMPORTANT.search(result.get(key, ''))
+                and not _RE_IMPORTANT.search(value)):
+            # an important declaration wins over later normal ones
+            continue
         result.pop(key, None)
         result[key] = value
     return result
-- 
2.43.0


From d75facb7a6a31d8c9c926e9f6afda9b1f633d95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 54/90] fix: relative font sizes are resolved once and
 inherited as computed

em, % and the keywords larger and smaller were applied again at every level
that inherits them, larger and smaller had no effect on their own, rem on
the root and ex on any element never ended.
---
 svgpy/core.py | 51 ++++++++++++++++++++++++++++-----------------------
 svgpy/dom.py  |  4 ++++
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 94f7271..75915d6 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -85,7 +85,7 @@ class CSSUtils(object):
     _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
 
     @staticmethod
-    def compute_font_size(element, inherited_size=None, inherited_style=None):
+    def compute_font_size(element, inherited_style=None):
         if inherited_style is None:
             inherited_style = element.get_inherited_style()
 
@@ -111,36 +111,41 @@ class CSSUtils(object):
         elif font_size in ['larger', 'smaller']:
             # <relative-size>
             # Value: larger | smaller
-            if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None:
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
-            px = inherited_size
+            parent_size = CSSUtils._get_parent_font_size(element)
+            px = parent_size * (1.2 if font_size == 'larger' else 1 / 1.2)
         else:
             # <length> or <percentage>
             # See https://drafts.csswg.org/css-values-3/#lengths
-            fs = SVGLength(font_size, context=element)
-            px = fs.value()
+            # font-relative lengths refer to the font of the parent element
+            fs = SVGLength(font_size)
+            if fs.unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_PERCENTAGE]:
+                px = fs.value(fs.unit) * CSSUtils._get_parent_font_size(
+                    element)
+                if fs.unit == SVGLength.TYPE_PERCENTAGE:
+                    px /= 100
+            elif fs.unit == SVGLength.TYPE_REMS:
+                root = element.getroottree().getroot()
+                if element is root:
+                    px = fs.value()
+                else:
+                    px = SVGLength(font_size, context=root).value()
+            elif fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
+                             SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
+                px = SVGLength(font_size, context=element.getparent()).value()
+            else:
+                px = SVGLength(font_size, context=element).value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
             px = CSSUtils._MINIMUM_FONT_SIZE
         return float(px)
 
+    @staticmethod
+    def _get_parent_font_size(element):
+        parent = element.getparent()
+        if parent is None:
+            return Font.default_font_size
+        return CSSUtils.compute_font_size(parent)
+
     @staticmethod
     def compute_font_size_adjust(style):
         # 'font-size-adjust' property
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 1d1bddb..3d86d38 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2031,6 +2031,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         style[key] = value
                         _update_font_variant_prop(value, style,
                                                   inherited_props)
+                    elif key == 'font-size' and element is not self:
+                        # descendants inherit the computed value
+                        style[key] = str(CSSUtils.compute_font_size(element))
+                        inherited_props.pop(key, None)
                     elif key == 'marker':
                         # TODO: parse the 'marker' shorthand property.
                         raise NotImplementedError
-- 
2.43.0


From 7e730ab2924eb58fdbc16d14ec00948c2b68350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 55/90] fix: em refers to the font size of the element itself

It referred to that of the parent, so that width='1em' font-size='30' was 16.
The font size of an element which establishes a viewport refers to the outer
viewport, as its own may depend on the font size.
---
 svgpy/base.py | 30 +++++++++++++++++-------------
 svgpy/core.py | 25 +++++++++++++++++++------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 9544df6..56e340b 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -203,6 +203,21 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             element = element.getparent()
         return None
 
+    def get_initial_viewport_size(self):
+        win = (self.owner_document.default_view
+               if self.owner_document is not None
+               else None)
+        if win is None:
+            initial_viewport_width = Screen.DEFAULT_SCREEN_WIDTH
+            initial_viewport_height = Screen.DEFAULT_SCREEN_HEIGHT
+        else:
+            initial_viewport_width = win.inner_width
+            initial_viewport_height = win.inner_height
+        return (SVGLength(initial_viewport_width,
+                          direction=SVGLength.DIRECTION_HORIZONTAL),
+                SVGLength(initial_viewport_height,
+                          direction=SVGLength.DIRECTION_VERTICAL))
+
     def get_view_box(self, recursive=True):
         """Gets values of the 'viewBox' and 'preserveAspectRatio' attributes
         from nearest ancestor element that establishes an SVG viewport.
@@ -248,19 +263,8 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
                 break
             element = root.getparent()
 
-        win = (self.owner_document.default_view
-               if self.owner_document is not None
-               else None)
-        if win is None:
-            initial_viewport_width = Screen.DEFAULT_SCREEN_WIDTH
-            initial_viewport_height = Screen.DEFAULT_SCREEN_HEIGHT
-        else:
-            initial_viewport_width = win.inner_width
-            initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
+        parent_vpw, parent_vph = self.get_initial_viewport_size()
+        vpw, vph = parent_vpw, parent_vph
         for root in roots:
             _width = root.get('width', 'auto')
             if _width == 'auto':
diff --git a/svgpy/core.py b/svgpy/core.py
index 75915d6..456c2db 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -132,6 +132,23 @@ class CSSUtils(object):
             elif fs.unit in [SVGLength.TYPE_EXS, SVGLength.TYPE_CAPS,
                              SVGLength.TYPE_CHS, SVGLength.TYPE_ICS]:
                 px = SVGLength(font_size, context=element.getparent()).value()
+            elif (fs.unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
+                              SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX]
+                    and element is element.get_nearest_viewport_element()
+                    and element.get_view_box(recursive=False) is None):
+                # the viewport of the element may depend on its font size
+                parent = element.getparent()
+                if parent is not None:
+                    px = SVGLength(font_size, context=parent).value()
+                else:
+                    vpw, vph = [
+                        x.value() for x in element.get_initial_viewport_size()]
+                    px = fs.value(fs.unit) / 100 * {
+                        SVGLength.TYPE_VW: vpw,
+                        SVGLength.TYPE_VH: vph,
+                        SVGLength.TYPE_VMIN: min(vpw, vph),
+                        SVGLength.TYPE_VMAX: max(vpw, vph),
+                    }[fs.unit]
             else:
                 px = SVGLength(font_size, context=element).value()
 
@@ -1379,12 +1396,8 @@ class SVGLength(object):
             if self._context is None:
                 element_font_size = Decimal(Font.default_font_size)
             else:
-                context = self._context.getparent()
-                if context is None:
-                    element_font_size = Decimal(Font.default_font_size)
-                else:
-                    element_font_size = Decimal(
-                        CSSUtils.compute_font_size(context))
+                element_font_size = Decimal(
+                    CSSUtils.compute_font_size(self._context))
 
         if (self._unit in [SVGLength.TYPE_VW, SVGLength.TYPE_VH,
                            SVGLength.TYPE_VMIN, SVGLength.TYPE_VMAX,
-- 
2.43.0


From e9cd5d3bf2483b968fd21212f4609f44213b0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 56/90] fix: ex, cap, ch and ic lengths of shapes can be
 computed

Their font asked for the computed style, which asked for the geometry, which
asked for the font again.
---
 svgpy/core.py |  4 ++--
 svgpy/dom.py  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 456c2db..8a462f9 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -649,7 +649,7 @@ class Font(object):
             context (Element): An Element object.
         """
         self._context = context
-        self._style = context.get_computed_style()
+        self._style = context.get_computed_font_style()
         self._face = FontManager.get_face(self._style,
                                           context.owner_document,
                                           context.text)
@@ -682,7 +682,7 @@ class Font(object):
 
     @property
     def attributes(self):
-        return self._style
+        return self._context.get_computed_style()
 
     @property
     def cap_height(self):
diff --git a/svgpy/dom.py b/svgpy/dom.py
index 3d86d38..c22ce97 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1809,9 +1809,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
     def get_computed_geometry(self):
         return {}  # override with a subclass
 
-    def get_computed_style(self):
-        """Gets the presentation attributes from ancestor elements."""
-        # TODO: implement Window.get_computed_style()
+    def get_computed_font_style(self):
+        """Gets the presentation attributes from ancestor elements, where
+        the font properties are computed.
+        """
         style = self.get_inherited_style()
 
         # 'font-feature-settings' property
@@ -1838,6 +1839,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         style['font-weight'] = CSSUtils.compute_font_weight(
             self,
             inherited_style=style)
+        return style
+
+    def get_computed_style(self):
+        """Gets the presentation attributes from ancestor elements."""
+        # TODO: implement Window.get_computed_style()
+        style = self.get_computed_font_style()
 
         # 'line-height' property
         style['line-height'] = CSSUtils.compute_line_height(self, style)
-- 
2.43.0


From d806f2e774c4df814d45a52d8fb7d06afa9c63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 57/90] fix: bolder, lighter and relative lengths are resolved
 where they are given

bolder and lighter had no effect on the element that has them, a number as
line-height was taken for pixels, and descendants applied em again to their
own font size.
---
 svgpy/core.py | 56 +++++++++++++++++++++++++++++----------------------
 svgpy/dom.py  | 16 ++++++++++++++-
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 8a462f9..854af6f 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -176,8 +176,7 @@ class CSSUtils(object):
         return font_size_adjust
 
     @staticmethod
-    def compute_font_weight(element,
-                            inherited_weight=None, inherited_style=None):
+    def compute_font_weight(element, inherited_style=None):
         if inherited_style is None:
             inherited_style = element.get_inherited_style()
 
@@ -191,34 +190,40 @@ class CSSUtils(object):
         if font_weight in ['bolder', 'lighter']:
             # <relative-weight>
             # Value: bolder | lighter
-            if inherited_weight is None:
-                inherited_weight = Font.default_font_weight
-            parent_sequence = list()
             parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None:
-                    continue
-                elif value in ['bolder', 'lighter']:
-                    xp = CSSUtils._INHERITED_WEIGHT_LIST
-                    fp = CSSUtils._BOLDER_WEIGHT_LIST if value == 'bolder' \
-                        else CSSUtils._LIGHTER_WEIGHT_LIST
-                    inherited_weight = np.interp(inherited_weight, xp, fp)
-                else:
-                    inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
-                        inherited_weight,
-                        {'font-weight': value})
-            weight = inherited_weight
+            inherited_weight = (CSSUtils.compute_font_weight(parent)
+                                if parent is not None
+                                else Font.default_font_weight)
+            xp = CSSUtils._INHERITED_WEIGHT_LIST
+            fp = CSSUtils._BOLDER_WEIGHT_LIST if font_weight == 'bolder' \
+                else CSSUtils._LIGHTER_WEIGHT_LIST
+            weight = np.interp(inherited_weight, xp, fp)
         else:
             # <absolute-weight>
             weight = CSSUtils._FONT_WEIGHT_MAP.get(font_weight, font_weight)
 
         return int(weight)
 
+    @staticmethod
+    def compute_inherited_length(element, key, value):
+        """Returns the value that child elements inherit, where a length
+        relative to the font of the element is replaced by an absolute one.
+        """
+        try:
+            length = SVGLength(value, context=element)
+        except ValueError:
+            return value  # keyword or list
+        if length.unit in [SVGLength.TYPE_EMS, SVGLength.TYPE_EXS,
+                           SVGLength.TYPE_CAPS, SVGLength.TYPE_CHS,
+                           SVGLength.TYPE_ICS]:
+            return '{}px'.format(length.value())
+        elif key == 'line-height' and length.unit == \
+                SVGLength.TYPE_PERCENTAGE:
+            return '{}px'.format(
+                length.value(SVGLength.TYPE_PERCENTAGE) / 100
+                * CSSUtils.compute_font_size(element))
+        return value
+
     @staticmethod
     def compute_line_height(element, computed_style=None):
         if computed_style is None:
@@ -239,8 +244,11 @@ class CSSUtils(object):
                 # <percentage>
                 line_height = (h.value(SVGLength.TYPE_PERCENTAGE) / 100
                                * font_size)
+            elif h.unit in [None, SVGLength.TYPE_NUMBER]:
+                # <number>
+                line_height = h.value(h.unit) * font_size
             else:
-                # <length> or <number>
+                # <length>
                 line_height = h.value()
         return line_height
 
diff --git a/svgpy/dom.py b/svgpy/dom.py
index c22ce97..a38a58c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1859,7 +1859,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         mode = SVGLength.DIRECTION_HORIZONTAL if writing_mode in [
             'horizontal-tb', 'lr', 'lr-tb', 'rl', 'rl-tb'
         ] else SVGLength.DIRECTION_VERTICAL
-        style['inline-size'] = SVGLength(inline_size).value(direction=mode)
+        style['inline-size'] = SVGLength(
+            inline_size,
+            context=self).value(direction=mode)
 
         # 'stroke-width' property
         # Value: <percentage> | <length>
@@ -2042,6 +2044,18 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                         # descendants inherit the computed value
                         style[key] = str(CSSUtils.compute_font_size(element))
                         inherited_props.pop(key, None)
+                    elif (key == 'font-weight' and element is not self
+                            and value in ['bolder', 'lighter']):
+                        style[key] = str(
+                            CSSUtils.compute_font_weight(element))
+                        inherited_props.pop(key, None)
+                    elif (key in ['letter-spacing', 'line-height',
+                                  'stroke-dashoffset', 'stroke-width',
+                                  'tab-size', 'word-spacing']
+                            and element is not self):
+                        style[key] = CSSUtils.compute_inherited_length(
+                            element, key, value)
+                        inherited_props.pop(key, None)
                     elif key == 'marker':
                         # TODO: parse the 'marker' shorthand property.
                         raise NotImplementedError
-- 
2.43.0


From 71b1405b6a695d8db678cdbbd1d72de5d719d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 58/90] fix: class names are looked up literally and leave the
 caller's namespaces alone

---
 svgpy/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 55eac6f..7da5cc7 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -103,19 +103,20 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
     Returns:
         list[Element]: A list of elements.
     """
-    names = class_names.split()
+    names = [x for x in re.split('[{}]+'.format(_ASCII_WHITESPACE),
+                                 class_names) if len(x) > 0]
     if len(names) == 0:
         return []
     if include_self:
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    variables = {'name{}'.format(i): ' {} '.format(x)
+                 for i, x in enumerate(names)}
+    patterns = ['contains(concat(" ", normalize-space(@class), " "), ${})'
+                .format(x) for x in variables]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
-- 
2.43.0


From 7b213f09faf340790b92bced8fab8481e358274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 59/90] fix: selectors match in namespaced documents, in their
 scope and without the element itself

---
 svgpy/dom.py    | 12 ++++--------
 svgpy/style.py  | 13 +++++++++++++
 svgpy/window.py |  4 ++--
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a38a58c..1333301 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -17,14 +17,14 @@ import re
 from abc import ABC, abstractmethod
 from collections.abc import KeysView, MutableMapping, MutableSequence
 
-from lxml import cssselect, etree
+from lxml import etree
 
 from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
 from .style import get_cascaded_style, get_css_rules, \
-    get_css_style_sheet_from_element
+    get_css_style_sheet_from_element, select_elements
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
     is_ascii_whitespace
@@ -2278,12 +2278,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             node_append_data(target, text, tail)
 
     def query_selector_all(self, selectors):
-        nsmap = self.nsmap.copy()
-        uri = nsmap.pop(None, None)
-        if uri is not None:
-            nsmap['svg'] = uri
-        sel = cssselect.CSSSelector(selectors, namespaces=nsmap)
-        return sel(self)
+        elements = set(select_elements(self, selectors))
+        return [x for x in self.iterdescendants() if x in elements]
 
     def remove(self, node=None):
         """Removes a matching sub-node. Unlike the find methods, this method
diff --git a/svgpy/style.py b/svgpy/style.py
index c65a63a..b2b7009 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -117,6 +117,19 @@ class _SelectorTranslator(cssselect.LxmlTranslator):
         return self.xpathexpr_cls(element=element)
 
 
+def select_elements(element, selectors):
+    """Returns a list of all elements that match the selectors, in the
+    document of the specified element.
+    """
+    namespaces = element.nsmap.copy()
+    uri = namespaces.pop(None, None)
+    if uri is not None:
+        namespaces['svg'] = uri
+    path = _SelectorTranslator().css_to_xpath(selectors)
+    root = element.getroottree().getroot()
+    return root.xpath(path, namespaces=namespaces)
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
diff --git a/svgpy/window.py b/svgpy/window.py
index 6d9e268..2d6ea12 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -26,7 +26,7 @@ from .css.screen import Screen
 from .dom import Element, Node, NonElementParentNode, ParentNode, \
     node_insert_before
 from .exception import HierarchyRequestError
-from .style import get_css_style_sheets
+from .style import get_css_style_sheets, select_elements
 from .url import Location
 from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
@@ -592,7 +592,7 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
 
     def query_selector_all(self, selectors):
         root = self._document_element
-        return root.query_selector_all(selectors) if root is not None else []
+        return select_elements(root, selectors) if root is not None else []
 
     def remove(self, node):
         """Removes a child node from this node.
-- 
2.43.0


From eb6f2e08c429805762226a0dc82be7960a3fa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 60/90] fix: math expressions are read by the precedence of
 their operators

---
 svgpy/css/types.py | 186 ++++++++++++++++++---------------------------
 1 file changed, 73 insertions(+), 113 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 9b7a7db..a12a8df 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -871,11 +871,21 @@ class CSSNumericValue(CSSStyleValue):
     def __init__(self):
         super().__init__()
 
+    @staticmethod
+    def _parse_math_calc(css_text, components):
+        # <calc-sum>, where a single <calc-value> is a sum of its own
+        tokens = [x for x in components if x.type != 'whitespace']
+        single = len(tokens) == 1
+        node = CSSNumericValue._parse_math_sum(css_text, tokens)
+        if single:
+            node = _MathExpression(None, CSSMathOperator.SUM, [node])
+        return node
+
     @staticmethod
     def _parse_math_expression(css_text, token, root_node=None):
         function_name = token.lower_name
         if function_name == 'calc':
-            operator = None
+            return CSSNumericValue._parse_math_calc(css_text, token.arguments)
         elif function_name == 'clamp':
             operator = CSSMathOperator.CLAMP
         elif function_name == 'max':
@@ -885,122 +895,70 @@ class CSSNumericValue(CSSStyleValue):
         else:
             raise ValueError('Invalid math expression: ' + repr(token))
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
-        if len(args) == 0:
+        arguments = [[]]
+        for arg in token.arguments:
+            if arg == ',':
+                arguments.append([])
+            elif arg.type != 'whitespace':
+                arguments[-1].append(arg)
+        if operator == CSSMathOperator.CLAMP and len(arguments) != 3:
             raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
-        while len(args) > 0:
-            arg = args.pop(0)
-            operator = current_node.operator
-            if arg.type == 'literal':
-                literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.PRODUCT
-                    elif operator != CSSMathOperator.PRODUCT:
-                        previous_node = current_node
-                        previous_value = previous_node.values.pop(-1)
-                        current_node = _MathExpression(
-                            previous_node,
-                            CSSMathOperator.PRODUCT,
-                            [previous_value])
-                        previous_node.values.append(current_node)
-                elif literal == '+':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.SUM
-                    elif operator != CSSMathOperator.SUM:
-                        while True:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                break
-                            current_node = parent_node
-                        previous_node = current_node
-                        current_node = _MathExpression(
-                            previous_node.parent,
-                            CSSMathOperator.SUM,
-                            [previous_node])
-                        previous_node.parent = current_node
-                elif literal == '/':
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.INVERT,
-                        [next_value])
-                    if operator == CSSMathOperator.PRODUCT:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.PRODUCT
-                            current_node.values.append(next_node)
-                        else:
-                            previous_value = current_node.values.pop(-1)
-                            node = _MathExpression(
-                                current_node,
-                                CSSMathOperator.PRODUCT,
-                                [previous_value, next_node])
-                            current_node.values.append(node)
-                elif literal == '-':
-                    # TODO: fix process of a "negate" node.
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.NEGATE,
-                        [next_value])
-                    if operator == CSSMathOperator.SUM:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.SUM
-                            current_node.values.append(next_node)
-                        else:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                parent_node = _MathExpression(
-                                    None,
-                                    CSSMathOperator.SUM,
-                                    [current_node, next_node])
-                                current_node.parent = parent_node
-                                next_node.parent = parent_node
-                                current_node = parent_node
-                            else:
-                                previous_value = parent_node.values.pop(-1)
-                                node = _MathExpression(
-                                    current_node,
-                                    CSSMathOperator.SUM,
-                                    [previous_value, next_node])
-                                parent_node.values.append(node)
-                else:
-                    raise ValueError('Invalid math expression: ' + repr(arg))
-            else:
-                node = CSSNumericValue._parse_numeric_value(
-                    css_text,
-                    arg,
-                    root_node=current_node)
-                current_node.values.append(node)
+        return _MathExpression(
+            root_node,
+            operator,
+            [CSSNumericValue._parse_math_sum(css_text, tokens)
+             for tokens in arguments])
 
+    @staticmethod
+    def _parse_math_product(css_text, tokens, negate=False):
+        # <calc-product> = <calc-value> [ [ '*' | '/' ] <calc-value> ]*
+        # removes the tokens of the product from the list
+        factors = list()
+        operator = None
         while True:
-            parent_node = current_node.parent
-            if (parent_node is None
-                    or (root_node is not None
-                        and parent_node is not None
-                        and parent_node == root_node)):
+            if len(tokens) == 0:
+                raise ValueError('Invalid math expression: ' + repr(css_text))
+            value = CSSNumericValue._parse_numeric_value(css_text,
+                                                         tokens.pop(0))
+            if operator == '/':
+                value = _MathExpression(None, CSSMathOperator.INVERT, [value])
+            elif negate and len(factors) == 0:
+                value = _MathExpression(None, CSSMathOperator.NEGATE, [value])
+            factors.append(value)
+            if len(tokens) == 0 or tokens[0] not in ('*', '/'):
                 break
-            current_node = parent_node
-        return current_node
+            previous_operator = operator
+            operator = tokens.pop(0).value
+            if previous_operator == '/' and operator == '*':
+                factors = [_MathExpression(None, CSSMathOperator.PRODUCT,
+                                           factors)]
+        if len(factors) == 1:
+            return factors[0]
+        return _MathExpression(None, CSSMathOperator.PRODUCT, factors)
+
+    @staticmethod
+    def _parse_math_sum(css_text, tokens):
+        # <calc-sum> = <calc-product> [ [ '+' | '-' ] <calc-product> ]*
+        tokens = list(tokens)
+        terms = [CSSNumericValue._parse_math_product(css_text, tokens)]
+        while len(tokens) > 0:
+            operator = tokens.pop(0)
+            if operator not in ('+', '-'):
+                raise ValueError('Invalid math expression: ' + repr(css_text))
+            negate = operator == '-'
+            term = CSSNumericValue._parse_math_product(css_text, tokens,
+                                                       negate=negate)
+            if (negate
+                    and len(terms) > 1
+                    and isinstance(terms[-1], _MathExpression)
+                    and terms[-1].operator == CSSMathOperator.PRODUCT):
+                # a + b * c - d => a + (b * c - d)
+                term = _MathExpression(None, CSSMathOperator.SUM,
+                                       [terms.pop(-1), term])
+            terms.append(term)
+        if len(terms) == 1:
+            return terms[0]
+        return _MathExpression(None, CSSMathOperator.SUM, terms)
 
     @staticmethod
     def _parse_numeric_value(css_text, token, root_node=None):
@@ -1019,6 +977,8 @@ class CSSNumericValue(CSSStyleValue):
                 css_text,
                 token,
                 root_node=root_node)
+        elif token.type == '() block':
+            return CSSNumericValue._parse_math_calc(css_text, token.content)
         raise ValueError('Invalid math expression: ' + repr(token))
 
     @staticmethod
-- 
2.43.0


From 656b0d91db29fb2cb5b5351ab84d69de52aeaed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 61/90] fix: an empty href of a link or xml-stylesheet is no
 style sheet

---
 svgpy/style.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index b2b7009..ce531ed 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -267,7 +267,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if href is None or len(href) == 0 or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -346,6 +346,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
             continue
         href = element.get('href')
         if (href is None
+                or len(href) == 0
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
-- 
2.43.0


From b3fb2254292270025ff54f23cdd159132304848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 62/90] fix: keep style text after a comment, compare style
 types without case

---
 svgpy/style.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ce531ed..98e3ec0 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -286,12 +286,14 @@ def get_css_style_sheet_from_element(element, doc=None):
                                           owner_node=element)
         return css_style_sheet
     else:  # 'style'
-        if element.type != 'text/css' or element.text is None:
+        # the text may be interrupted by comments
+        text = ''.join([element.text or ''] + [x.tail or '' for x in element])
+        if element.type.lower() not in ['', 'text/css'] or len(text) == 0:
             logger.debug(
                 'not a style sheet: {} type={} size={}'.format(
                     element,
                     repr(element.type),
-                    0 if element.text is None else len(element.text)))
+                    len(text)))
             return None
         media = element.media
         if media not in ['', 'all']:
@@ -307,7 +309,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                                         owner_node=element,
                                         title=element.title,
                                         media=element.media)
-        css_rules = CSSParser.fromstring(element.text,
+        css_rules = CSSParser.fromstring(text,
                                          parent_style_sheet=css_style_sheet)
         css_style_sheet.css_rules.extend(css_rules)
         return css_style_sheet
-- 
2.43.0


From 2403736adc795d8c8236a55464aea3b728d5174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 63/90] fix: read data: URLs that are not base64

---
 svgpy/css/__init__.py | 17 ++++++++++++-----
 svgpy/window.py       |  4 +++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 3304710..25fea27 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1778,11 +1778,18 @@ class CSSParser(object):
                     encoding = 'utf-8'
                 else:
                     encoding = content_type.get('charset', 'utf-8')
-            rules, encoding = tinycss2.parse_stylesheet_bytes(
-                css_bytes=data,
-                protocol_encoding=encoding,
-                skip_comments=True,
-                skip_whitespace=True)
+            if isinstance(data, str):
+                # 'data:' URL without base64 encoding
+                rules = tinycss2.parse_stylesheet(
+                    data,
+                    skip_comments=True,
+                    skip_whitespace=True)
+            else:
+                rules, encoding = tinycss2.parse_stylesheet_bytes(
+                    css_bytes=data,
+                    protocol_encoding=encoding,
+                    skip_comments=True,
+                    skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
                 rules,
                 parent_style_sheet=css_style_sheet,
diff --git a/svgpy/window.py b/svgpy/window.py
index 2d6ea12..180b15b 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -843,7 +843,9 @@ class SVGDOMImplementation(DOMImplementation):
                 charset = 'utf-8'
             else:
                 charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+            if isinstance(data, bytes):
+                data = data.decode(charset)
+            data = StringIO(data)
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From ebd7b94b0b74b3615b8059cecfdc387a4710a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 64/90] fix: read every declaration of @font-feature-values

---
 svgpy/css/__init__.py | 63 +++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 25fea27..e390f2f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1068,38 +1068,37 @@ class CSSFontFeatureValuesRule(CSSRule):
                                          skip_comments=True,
                                          skip_whitespace=True)
         for node in nodes:
-            if node.type == 'at-rule':
-                # tinycss2.parse_one_component_value() returns ParseError
-                feature_type = node.lower_at_keyword
-                name = None
-                feature_values = None
-                for token in node.content:
-                    if token.type == 'ident':
-                        name = token.value
-                    elif token.type == 'literal' and token.value == ':':
-                        if name is not None:
-                            feature_values = list()
-                    elif token.type == 'number' and token.is_integer:
-                        if feature_values is not None and token.int_value >= 0:
-                            feature_values.append(token.int_value)
-                    elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
-                        name = None
-                        feature_values = None
+            if node.type != 'at-rule' or node.content is None:
+                continue
+            feature_type = node.lower_at_keyword
+            declarations = tinycss2.parse_declaration_list(
+                node.content,
+                skip_comments=True,
+                skip_whitespace=True)
+            for declaration in declarations:
+                if declaration.type != 'declaration':
+                    continue
+                tokens = [x for x in declaration.value
+                          if x.type not in ('comment', 'whitespace')]
+                if (len(tokens) == 0
+                        or any(x.type != 'number'
+                               or not x.is_integer
+                               or x.int_value < 0 for x in tokens)):
+                    continue
+                name = declaration.name
+                feature_values = [x.int_value for x in tokens]
+                if feature_type == 'annotation':
+                    self._annotation[name] = feature_values
+                elif feature_type == 'character-variant':
+                    self._character_variant[name] = feature_values
+                elif feature_type == 'ornaments':
+                    self._ornaments[name] = feature_values
+                elif feature_type == 'styleset':
+                    self._styleset[name] = feature_values
+                elif feature_type == 'stylistic':
+                    self._stylistic[name] = feature_values
+                elif feature_type == 'swash':
+                    self._swash[name] = feature_values
 
     @property
     def font_family(self):
-- 
2.43.0


From e194709145be857deadda1443e715065b8e96348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 65/90] fix: skip at-rules that lack their block or prelude

---
 svgpy/css/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index e390f2f..5535d6f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1804,6 +1804,11 @@ class CSSParser(object):
         css_rules = list()
         for rule in rules:
             if rule.type == 'at-rule':
+                has_block = rule.content is not None
+                if has_block != (rule.lower_at_keyword in [
+                        'font-face', 'font-feature-values', 'media']):
+                    # invalid or unsupported at-rule
+                    continue
                 if rule.lower_at_keyword == 'font-face':
                     # @font-face at-rule
                     css_rule = CSSFontFaceRule(
@@ -1838,7 +1843,8 @@ class CSSParser(object):
                         rule,
                         parent_style_sheet=parent_style_sheet,
                         parent_rule=parent_rule)
-                    css_rules.append(css_rule)
+                    if css_rule.namespace_uri is not None:
+                        css_rules.append(css_rule)
             elif rule.type == 'qualified-rule':
                 css_rule = CSSStyleRule(
                     rule,
-- 
2.43.0


From c36a756749a0c274677298246c03e7e3aec9e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 66/90] fix: keep white space in strings and after escapes of
 selectors

---
 svgpy/css/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 5535d6f..ea6c94b 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -38,14 +38,16 @@ from ..exception import NoModificationAllowedError
 from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
     load, normalize_url, style_to_dict
 
-_RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
+# strings and escapes, or white space
+_RE_COLLAPSIBLE_WHITESPACE = re.compile(
+    r'("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|'
+    r'\\[0-9A-Fa-f]{1,6}[\t\n\f\r ]?|\\.)|[\t\n\f\r ]+',
+    re.DOTALL)
 
 
 def normalize_text(text):
-    out_text = text.strip().replace(
-        '\r\n', ' ').replace('\r', ' ').replace('\n', ' ')
-    out_text = _RE_COLLAPSIBLE_WHITESPACE.sub(' ', out_text)
-    return out_text
+    return _RE_COLLAPSIBLE_WHITESPACE.sub(lambda it: it.group(1) or ' ',
+                                          text.strip())
 
 
 class _StyleAttribute(object):
-- 
2.43.0


From e049df78f0cdd08231d062edc8ec02891853fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 67/90] fix: compute the white-space property

---
 svgpy/style.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 98e3ec0..b46fa4a 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -207,7 +207,8 @@ def get_cascaded_style(element, css_rules):
     style.update(style_important)
 
     shorthand = Shorthand({key: (value, '') for key, value in style.items()})
-    for key in ('font-variant', 'mask', 'overflow', 'text-decoration'):
+    for key in ('font-variant', 'mask', 'overflow', 'text-decoration',
+                'white-space'):
         value = shorthand.get_property_value(key)
         if len(value) > 0:
             style[key] = value
-- 
2.43.0


From 28c348518978bfb3ec38bd0c1a55bda6c8208050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 68/90] fix: add no spaces between the runs of a text

---
 svgpy/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 854af6f..f08773e 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -81,8 +81,8 @@ class CSSUtils(object):
 
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'(?<=[\r\n])(\x20|\t)+')
+    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+(?=[\r\n])')
 
     @staticmethod
     def compute_font_size(element, inherited_style=None):
@@ -347,8 +347,6 @@ class CSSUtils(object):
         if prev_text is not None:
             if prev_text.endswith(' ') and out_text.startswith(' '):
                 out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
         if first:
             out_text = out_text.lstrip(' ')
         # if len(element) == 0:
-- 
2.43.0


From b9cbb257b4fff0bd661f8da6b233a99f8adb05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 69/90] fix: read text behind comments and empty spans

---
 svgpy/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..fe78dd1 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -108,12 +108,11 @@ class SVGTextContentElement(SVGGraphicsElement):
                 child_chars_info, out_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
+            if child.tail is not None:
                 out_text = CSSUtils.normalize_text_content(
                     child,
                     child.tail,
-- 
2.43.0


From e862ec22ff28e70b802b3edbd8783ee24c771762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 70/90] fix: keep preserved white space at the ends of a text

---
 svgpy/core.py | 3 ++-
 svgpy/text.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index f08773e..0ae10d7 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -343,10 +343,11 @@ class CSSUtils(object):
                 ' ', out_text)
         if white_space in ['pre', 'pre-wrap']:
             out_text = _transform_segment_break(out_text, style)
+            return out_text
 
         if prev_text is not None:
             if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
+                out_text = out_text.lstrip(' ')
         if first:
             out_text = out_text.lstrip(' ')
         # if len(element) == 0:
diff --git a/svgpy/text.py b/svgpy/text.py
index fe78dd1..d2c9239 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -153,8 +153,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             root, first=first, **kwargs)
         if len(chars_info) > 0:
             item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
+            style = item[SVGTextContentElement._CHARS_STYLE]
+            if style['white-space'] not in ['pre', 'pre-wrap']:
+                text = item[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                item[SVGTextContentElement._CHARS_TEXT] = text
 
             is_render = kwargs.get('is_render', False)
             if is_render:
-- 
2.43.0


From 4102b4342f5fda0a856577c3fb75de27b7090b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 71/90] fix: count the characters of nested spans

---
 svgpy/text.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index d2c9239..29eec72 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -504,6 +504,16 @@ class SVGTextContentElement(SVGGraphicsElement):
 
         return path_data_list, advance_list, text_bbox, (current_x, current_y)
 
+    def _is_ancestor_of(self, element):
+        """Returns True if the element is the current element or one of its
+        descendants.
+        """
+        while element is not None:
+            if element is self:
+                return True
+            element = element.getparent()
+        return False
+
     def get_bbox(self, options=None, _depth=0):
         """Returns the bounding box of the current element.
 
@@ -630,10 +640,11 @@ class SVGTextContentElement(SVGGraphicsElement):
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
             out = [x[SVGTextContentElement._CHARS_TEXT]
                    for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
+                   if self._is_ancestor_of(
+                       x[SVGTextContentElement._CHARS_ELEMENT])]
             if len(out) == 0:
                 return None
-            return out[0]
+            return ''.join(out)
         return None
 
     def get_nearest_text_element(self):
@@ -695,12 +706,11 @@ class SVGTextContentElement(SVGGraphicsElement):
             for item in iter(chars_info):
                 advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
+            for item in iter(chars_info):
+                if self._is_ancestor_of(
+                        item[SVGTextContentElement._CHARS_ELEMENT]):
+                    advance_list += item[
+                        SVGTextContentElement._CHARS_ADVANCE_LIST]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 3cdadf0ecf76b6c268335ed7ad25cfbb0abe389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 72/90] fix: text_content: text behind other children

---
 svgpy/dom.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 1333301..cfcc354 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1565,15 +1565,12 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
+            if (child.node_type == Node.ELEMENT_NODE
+                    and child.local_name in Element.TEXT_CONTENT_ELEMENTS):
                 contents = Element._get_text_content(child)
                 chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From 0b5dac8aac7f38e16c6cba1d347ce8c5bbc19200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 73/90] fix: glyph offsets do not move right-to-left text

---
 svgpy/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 29eec72..b1d06c4 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -477,8 +477,9 @@ class SVGTextContentElement(SVGGraphicsElement):
                     if len(path_data) > 0:
                         line_path_data += path_data
 
+                    x -= x_offset
                     if para_level == UBiDi.UBIDI_LTR:
-                        x += x_advance - x_offset
+                        x += x_advance
                     y += y_advance + y_offset
                     line_bbox |= glyph_bbox
                     current_x = x
-- 
2.43.0


From 4fede16ae27705d1fa46ae73deec2fa95bd549b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 74/90] fix: pieces of unparsed values

---
 svgpy/css/types.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index a12a8df..7ad85b0 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -34,7 +34,6 @@ _RE_REAL_NUMBER = re.compile(r'[+-]?[0-9]*\.?[0-9]+(e[+-]?[0-9]+)?',
 
 _RE_URL_FUNCTION = re.compile(r'^url\((?P<value>[^)]+)\)$')
 
-_RE_VAR_FUNCTION = re.compile(r'(^|\s|\t|\*|/|\(|,)var\(')
 
 list_valued_properties = [
     'animation', 'animation-delay', 'animation-direction',
@@ -482,6 +481,13 @@ class CSSStyleValue(object):
     def value(self):
         return self._value
 
+    @staticmethod
+    def _has_var_reference(tokens):
+        return any(token.type == 'function'
+                   and (token.lower_name == 'var'
+                        or CSSStyleValue._has_var_reference(token.arguments))
+                   for token in tokens)
+
     @staticmethod
     def _parse_css_style_value(property_name, css_text, context=None):
         if context is None:
@@ -498,7 +504,7 @@ class CSSStyleValue(object):
         reified_values = list()
         tokens = tinycss2.parse_component_value_list(css_text,
                                                      skip_comments=True)
-        if (_RE_VAR_FUNCTION.search(css_text)
+        if (CSSStyleValue._has_var_reference(tokens)
                 or (property_name.startswith('--')
                     and property_name not in context.registered_property_set)):
             # unregistered custom property or
@@ -608,15 +614,14 @@ class CSSStyleValue(object):
                     single_string += token.name + '('
                     unparsed_value = CSSStyleValue._reify_component_values(
                         token.arguments)
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[0], str)):
-                        single_string += unparsed_value.pop(0)
-                    members.append(single_string)
-                    single_string = ''
-                    if (len(unparsed_value) > 0
-                            and isinstance(unparsed_value[-1], str)):
-                        single_string = unparsed_value.pop(-1)
-                    members.extend(unparsed_value)
+                    for member in unparsed_value:
+                        if isinstance(member, str):
+                            single_string += member
+                            continue
+                        if len(single_string) > 0:
+                            members.append(single_string)
+                            single_string = ''
+                        members.append(member)
                     single_string += ')'
             else:
                 single_string += tinycss2.serialize([token])
-- 
2.43.0


From 0106948cd4952e30ebf7376a195b692cf74535b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 75/90] fix: membership of style maps

---
 svgpy/css/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7ad85b0..e69d2ca 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1864,6 +1864,9 @@ class StylePropertyMapReadOnly(Mapping):
         """
         self._declarations = declaration  # type: dict
 
+    def __contains__(self, property_name):
+        return self.has(property_name)
+
     def __getitem__(self, property_name):
         return self.get_all(property_name)
 
-- 
2.43.0


From 930884ed85f8b78ae1d18861318285a222f62f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 76/90] fix: values of x, y, dx and dy of a text are used up by
 the characters of its spans

---
 svgpy/text.py | 69 ++++++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index b1d06c4..ccce2fc 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -209,8 +209,9 @@ class SVGTextContentElement(SVGGraphicsElement):
             tuple[float, float]:
         """
 
-        def _get_inherited_attribute(_element, _style_map, _key,
-                                     _default=None):
+        def _get_attribute_lists(_element, _style_map, _key):
+            # the lists of the element and its ancestors, nearest first
+            _lists = list()
             while _element is not None:
                 if (_element.node_type == Node.ELEMENT_NODE
                         and _element.istext()
@@ -221,17 +222,24 @@ class SVGTextContentElement(SVGGraphicsElement):
                         _style_map[hash(_element)] = _style
                     _value = _style.get(_key)
                     if _value is not None:
-                        return _value
+                        _lists.append(_value)
                 _element = _element.getparent()
+            return _lists
+
+        def _next_value(_lists, _default):
+            # every list has a value for a character, the nearest one is used
+            for _list in reversed(_lists):
+                if len(_list) > 0:
+                    _default = _list.pop(0)
             return _default
 
         # TODO: support line-breaking and word-breaking.
-        x_list = _get_inherited_attribute(element, style_map, 'x', [])
-        y_list = _get_inherited_attribute(element, style_map, 'y', [])
-        dx_list = _get_inherited_attribute(element, style_map, 'dx', [])
-        dy_list = _get_inherited_attribute(element, style_map, 'dy', [])
-        rotate_list = _get_inherited_attribute(
-            element, style_map, 'rotate', [])
+        x_lists = _get_attribute_lists(element, style_map, 'x')
+        y_lists = _get_attribute_lists(element, style_map, 'y')
+        dx_lists = _get_attribute_lists(element, style_map, 'dx')
+        dy_lists = _get_attribute_lists(element, style_map, 'dy')
+        rotate_lists = _get_attribute_lists(element, style_map, 'rotate')
+        rotate_list = rotate_lists[0] if len(rotate_lists) > 0 else []
 
         style = style_map.get(hash(element))  # computed style
         assert style is not None
@@ -377,20 +385,15 @@ class SVGTextContentElement(SVGGraphicsElement):
                         else:
                             # ligature
                             index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
+                            for number_list in x_lists + y_lists:
+                                if index < len(number_list):
+                                    _ = number_list.pop(index)
+                            for number_list in dx_lists + dy_lists:
+                                length = len(number_list)
+                                if index < length:
+                                    delta = number_list.pop(index)
+                                    if index < length - 1:
+                                        number_list[index] += delta
                             rotate_length = len(rotate_list)
                             if rotate_length > 1 and index < rotate_length:
                                 _ = rotate_list.pop(index)
@@ -400,22 +403,10 @@ class SVGTextContentElement(SVGGraphicsElement):
                 line_path_data = list()
                 line_bbox = DOMRect()
                 for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
+                    x = _next_value(x_lists, current_x)
+                    y = _next_value(y_lists, current_y)
+                    dx = _next_value(dx_lists, 0)
+                    dy = _next_value(dy_lists, 0)
                     rotate_length = len(rotate_list)
                     if rotate_length == 1:
                         rotate = rotate_list[0]
-- 
2.43.0


From d016aa2ec78ba944b087fa0602cf3167b0f7f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 77/90] fix: initial value of mask

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index cfcc354..fdc92e2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1932,7 +1932,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'flood-opacity': '1',
              'inline-size': '0',
              'lighting-color': 'white',
-             'mask': 'no',
+             'mask': 'none',
              'opacity': '1',
              'overflow': 'visible',
              'stop-color': 'black',
-- 
2.43.0


From 58f3f3c337d523f1248abc992e476c621dcefbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 78/90] fix: font-variant-east-asian jis04 turns the jp04
 feature on

---
 svgpy/opentype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index 0d815c1..f2520cd 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -671,6 +671,8 @@ def features_from_style(style):
         features['jp83'] = 1
     elif 'jis90' in font_variant_east_asian:
         features['jp90'] = 1
+    elif 'jis04' in font_variant_east_asian:
+        features['jp04'] = 1
     elif 'simplified' in font_variant_east_asian:
         features['smpl'] = 1
     elif 'traditional' in font_variant_east_asian:
-- 
2.43.0


From 61b5589eccdd61ce6448c29d8d269f6982b3f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 79/90] fix: font-feature-settings overrides font-variant-* and
 font-kerning

---
 svgpy/opentype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/opentype.py b/svgpy/opentype.py
index f2520cd..4e16e5b 100644
--- a/svgpy/opentype.py
+++ b/svgpy/opentype.py
@@ -625,7 +625,8 @@ language_tag_to_iso639_codes_map = {
 
 
 def features_from_style(style):
-    features = style['font-feature-settings'].copy()  # type: dict
+    # See https://drafts.csswg.org/css-fonts-3/#feature-precedence
+    features = dict()
 
     font_kerning = style['font-kerning']
     if font_kerning == 'none':
@@ -749,6 +750,7 @@ def features_from_style(style):
     elif font_variant_position == 'super':
         features['sups'] = 1
 
+    features.update(style['font-feature-settings'])
     return ['{}={}'.format(tag, value) for tag, value in features.items()]
 
 
-- 
2.43.0


From 83d87c0d45d4cfdcb4c99d73dae080e4d03e1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 80/90] fix: read font-feature-settings as component values
 (quoted commas, empty items, keyword case)

---
 svgpy/core.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 0ae10d7..2283211 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -22,6 +22,7 @@ import unicodedata
 from decimal import Decimal, InvalidOperation
 
 import numpy as np
+import tinycss2
 
 from .css.screen import Screen
 from .fontconfig import FontConfig
@@ -252,6 +253,18 @@ class CSSUtils(object):
                 line_height = h.value()
         return line_height
 
+    @staticmethod
+    def _split_component_values(value):
+        """Splits a comma-separated list into lists of component values."""
+        groups = [[]]
+        for token in tinycss2.parse_component_value_list(
+                value, skip_comments=True):
+            if token.type == 'literal' and token.value == ',':
+                groups.append([])
+            elif token.type != 'whitespace':
+                groups[-1].append(token)
+        return groups
+
     @staticmethod
     def get_value(element, key, default=None):
         context = element
@@ -487,12 +500,10 @@ class CSSUtils(object):
         features = dict()
         if value == 'normal':
             return features
-        tags = value.split(',')
-        for tag_value in tags:
-            items = tag_value.split()
-            tag = items[0]
-            if tag[0] == tag[-1] and tag[0] in '"\'':
-                tag = tag[1:-1]
+        for items in CSSUtils._split_component_values(value):
+            if len(items) == 0 or items[0].type not in ['string', 'ident']:
+                continue  # invalid tag
+            tag = items[0].value
             if len(tag) != 4:
                 continue  # invalid tag
             invalid_tag = False
@@ -503,11 +514,13 @@ class CSSUtils(object):
             if invalid_tag:
                 continue
             if len(items) >= 2:
-                if items[1].isdigit():
-                    sw = int(items[1])
-                elif items[1] == 'on':
+                item = items[1]
+                if (item.type == 'number' and item.is_integer
+                        and item.int_value >= 0):
+                    sw = item.int_value
+                elif item.type == 'ident' and item.lower_value == 'on':
                     sw = 1
-                elif items[1] == 'off':
+                elif item.type == 'ident' and item.lower_value == 'off':
                     sw = 0
                 else:
                     continue  # invalid value
-- 
2.43.0


From b3cf341db64f29af148af783be383066cef08303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 81/90] fix: font-family lists mixing quoted and unquoted
 names, and quoted commas

---
 svgpy/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 2283211..59ecdf9 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -476,10 +476,14 @@ class CSSUtils(object):
         if isinstance(value, list):
             items = value
         elif isinstance(value, str):
-            if '"' in value or '\'' in value:
-                items = shlex.split(value)
-            else:
-                items = [value]
+            font_family = list()
+            for tokens in CSSUtils._split_component_values(value):
+                name = ' '.join(
+                    token.value if token.type in ['string', 'ident']
+                    else token.serialize() for token in tokens)
+                if len(name) > 0:
+                    font_family.append(name)
+            return font_family
         else:
             raise TypeError('Expected str or list, got {}'.format(
                 type(value)))
-- 
2.43.0


From 6a9cfb9809a5a750dca250a17223ebabc84e49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 82/90] fix: skip feature tags HarfBuzz cannot represent

---
 svgpy/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index ccce2fc..ddc91f4 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -259,7 +259,9 @@ class SVGTextContentElement(SVGGraphicsElement):
         hb_features = list()
         features = features_from_style(style)
         for feature in features:
-            hb_features.append(HBFeature.fromstring(feature))
+            hb_feature = HBFeature.fromstring(feature)
+            if hb_feature is not None:
+                hb_features.append(hb_feature)
 
         font_synthesis = style['font-synthesis']
         force_embolden = True if (style['font-weight'] > Font.WEIGHT_NORMAL
-- 
2.43.0


From ce4a9903413260aef4ade1dcc56e062e2951c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 83/90] fix: an empty fallback of a var() reference was lost

---
 svgpy/css/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index e69d2ca..0078571 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -596,14 +596,16 @@ class CSSStyleValue(object):
                         members.append(single_string)
                         single_string = ''
                     variable = ''
+                    has_fallback = False
                     args = list(token.arguments)
                     while len(args) > 0:
                         arg = args.pop(0)
                         if arg.type == 'literal' and arg.value == ',':
+                            has_fallback = True
                             break
                         variable += tinycss2.serialize([arg])
                     variable = variable.strip()
-                    if len(args) == 0:
+                    if not has_fallback:
                         fallback = None
                     else:
                         fallback = CSSStyleValue._reify_component_values(args)
-- 
2.43.0


From b6e72613633f4fb51554f6496a49d7383b92b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 84/90] fix: var() references inside blocks of a value were not
 seen

---
 svgpy/css/types.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 0078571..ad3cb1e 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -483,10 +483,15 @@ class CSSStyleValue(object):
 
     @staticmethod
     def _has_var_reference(tokens):
-        return any(token.type == 'function'
-                   and (token.lower_name == 'var'
-                        or CSSStyleValue._has_var_reference(token.arguments))
-                   for token in tokens)
+        for token in tokens:
+            if token.type == 'function':
+                if (token.lower_name == 'var'
+                        or CSSStyleValue._has_var_reference(token.arguments)):
+                    return True
+            elif token.type in ['() block', '[] block', '{} block']:
+                if CSSStyleValue._has_var_reference(token.content):
+                    return True
+        return False
 
     @staticmethod
     def _parse_css_style_value(property_name, css_text, context=None):
@@ -590,8 +595,9 @@ class CSSStyleValue(object):
         members = list()
         single_string = ''
         for token in tokens:
-            if token.type == 'function':
-                if token.lower_name == 'var':
+            if token.type in ['function', '() block', '[] block',
+                              '{} block']:
+                if token.type == 'function' and token.lower_name == 'var':
                     if len(single_string) > 0:
                         members.append(single_string)
                         single_string = ''
@@ -613,9 +619,15 @@ class CSSStyleValue(object):
                                                                fallback)
                     members.append(unparsed_value)
                 else:
-                    single_string += token.name + '('
+                    if token.type == 'function':
+                        start, end = token.name + '(', ')'
+                        content = token.arguments
+                    else:
+                        start, end = token.type[:2]
+                        content = token.content
+                    single_string += start
                     unparsed_value = CSSStyleValue._reify_component_values(
-                        token.arguments)
+                        content)
                     for member in unparsed_value:
                         if isinstance(member, str):
                             single_string += member
@@ -624,7 +636,7 @@ class CSSStyleValue(object):
                             members.append(single_string)
                             single_string = ''
                         members.append(member)
-                    single_string += ')'
+                    single_string += end
             else:
                 single_string += tinycss2.serialize([token])
 
-- 
2.43.0


From 075bad5642982daaf14633b4cd489fcc948c468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 85/90] fix: values with blocks or parse errors raised
 NotImplementedError or ValueError in CSS.supports()

---
 svgpy/css/props.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 3ee55fa..6abe60a 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -341,9 +341,11 @@ class PropertyDescriptor(object):
                 return True, PropertySyntax.IMAGE
 
             return False, None
-        elif token.type == 'error':
-            raise ValueError('Cannot parse for property: ' + repr(token))
-        raise NotImplementedError(token)
+        elif (token.type != 'error'
+              and self._syntax_components[PropertySyntax.ANY]):
+            # blocks and others
+            return True, None
+        return False, None
 
     def supports(self, css_text):
         tokens = tinycss2.parse_component_value_list(css_text,
-- 
2.43.0


From 634304f38df67baa98a8a0243a53ffac3f41857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 86/90] fix: CSS.supports() accepted an empty value

---
 svgpy/css/props.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 6abe60a..9e271b9 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -351,6 +351,8 @@ class PropertyDescriptor(object):
         tokens = tinycss2.parse_component_value_list(css_text,
                                                      skip_comments=True)
         tokens = [token for token in tokens if token.type != 'whitespace']
+        if len(tokens) == 0:
+            return False
         css_wide_keywords = 0
         for token in tokens:
             if token.type == 'literal' and token.value == ',':
-- 
2.43.0


From 915780eb69e8a4b3e8a5f1b35ff913cd5ab58615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 87/90] fix: keywords of property values are case-insensitive

---
 svgpy/css/props.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 9e271b9..ac3dd84 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -135,6 +135,7 @@ class PropertyDescriptor(object):
                           and x.lower() not in (css_color_keyword_set
                                                 | css_wide_keyword_set))}
         self._identifiers = components
+        self._lower_identifiers = {x.lower() for x in components}
 
     @property
     def identifiers(self):
@@ -265,7 +266,7 @@ class PropertyDescriptor(object):
                 return True, None
 
             # <custom-ident> type
-            if value in self._identifiers:
+            if value.lower() in self._lower_identifiers:
                 return True, PropertySyntax.CUSTOM_IDENT
 
             # <color> type (<named-color> or 'currentcolor')
-- 
2.43.0


From 59e1a505a75030aceed48187c23ee9b508a68ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 88/90] fix: strings were accepted as keywords and colors of
 properties

---
 svgpy/css/props.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index ac3dd84..8679aab 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -257,8 +257,15 @@ class PropertyDescriptor(object):
                     return True, PropertySyntax.COLOR
 
             return False, None
-        elif token.type in ('ident', 'string'):
-            # <ident-token> or <string-token>
+        elif token.type == 'string':
+            # <string-token>
+            if (self._syntax_components[PropertySyntax.ANY]
+                    or self._syntax_components[PropertySyntax.STRING]):
+                return True, PropertySyntax.CUSTOM_IDENT
+
+            return False, None
+        elif token.type == 'ident':
+            # <ident-token>
             value = token.value
 
             # CSS-wide keywords
-- 
2.43.0


From 4852e77300e675cdb57946e1b16fb4bd3e8025d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 89/90] fix: frequencies and flexes were accepted as lengths

---
 svgpy/css/props.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/props.py b/svgpy/css/props.py
index 8679aab..60fada6 100644
--- a/svgpy/css/props.py
+++ b/svgpy/css/props.py
@@ -180,15 +180,15 @@ class PropertyDescriptor(object):
                         or self._syntax_components[PropertySyntax.RESOLUTION]):
                     return True, PropertySyntax.RESOLUTION
 
+            # <frequency> or <flex> type
+            elif unit in ('hz', 'khz', 'fr'):
+                if self._syntax_components[PropertySyntax.ANY]:
+                    return True, PropertySyntax.LENGTH
+
             # <length-percentage> or <length> type
             elif unit in ('em', 'ex', 'cap', 'ch', 'ic', 'rem', 'lh', 'rlh',
                           'vw', 'vh', 'vi', 'vb', 'vmin', 'vmax',
-                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px',
-                          'deg', 'grad', 'rad', 'turn',
-                          's', 'ms',
-                          'hz', 'khz',
-                          'dpi', 'dpcm', 'dppx',
-                          'fr'):
+                          'cm', 'mm', 'q', 'in', 'pt', 'pc', 'px'):
                 # <length> type
                 if (self._syntax_components[PropertySyntax.ANY]
                         or self._syntax_components[PropertySyntax.LENGTH]):
-- 
2.43.0


From dd730085c17615d04a237dd83fb07681ad915a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 90/90] fix: the cap unit was unknown to typed values

---
 svgpy/css/types.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index ad3cb1e..c352929 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -246,10 +246,11 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
             # "percent"
             result.percent = 1
         elif unit in (UnitType.EM, UnitType.EX, UnitType.CH, UnitType.IC,
-                      UnitType.REM, UnitType.LH, UnitType.RLH, UnitType.VW,
-                      UnitType.VH, UnitType.VI, UnitType.VB, UnitType.VMIN,
-                      UnitType.VMAX, UnitType.CM, UnitType.MM, UnitType.Q,
-                      UnitType.IN, UnitType.PT, UnitType.PC, UnitType.PX):
+                      UnitType.CAP, UnitType.REM, UnitType.LH, UnitType.RLH,
+                      UnitType.VW, UnitType.VH, UnitType.VI, UnitType.VB,
+                      UnitType.VMIN, UnitType.VMAX, UnitType.CM, UnitType.MM,
+                      UnitType.Q, UnitType.IN, UnitType.PT, UnitType.PC,
+                      UnitType.PX):
             # <length>
             result.length = 1
         elif unit in (UnitType.DEG, UnitType.GRAD, UnitType.RAD,
@@ -363,6 +364,7 @@ class UnitType(object):
     EX = 'ex'
     CH = 'ch'
     IC = 'ic'
+    CAP = 'cap'
     REM = 'rem'
     LH = 'lh'
     RLH = 'rlh'
-- 
2.43.0

