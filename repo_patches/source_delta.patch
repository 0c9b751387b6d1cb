From b491817d9776e3ae840b8507f82cb97dd833e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 01/36] fix: convert hsl hues between 240 and 300 degrees, and
 outside 0-360, to the right rgb

---
 src/colosseum/colors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..723cf33 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = (self.h % 360) / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 83d218e92471b0c43be7cee72cb1e38431059f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 02/36] fix: accept only strings as quotation marks, and keep
 those longer than one character

A flat sequence such as ('<<', '>>') was split into single characters, and
non-string items were stored or raised TypeError.
---
 src/colosseum/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..2ca5a34 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -216,7 +216,12 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
-        values = [repr(item) for sublist in value for item in sublist]
+        values = []
+        for item in value:
+            if isinstance(item, Sequence) and not isinstance(item, str):
+                values.extend(repr(sub_item) for sub_item in item)
+            else:
+                values.append(repr(item))
     else:
         raise ValueError(f"Unknown quote {value}")
 
@@ -231,6 +236,9 @@ def quotes(value):
             try:
                 opening = literal_eval(opening)
                 closing = literal_eval(closing)
+                if not (isinstance(opening, str) and isinstance(closing, str)):
+                    raise ValueError(f"Invalid quotes {value}")
+
                 parsed_values.append((opening, closing))
 
                 if len(opening) == 0 or len(closing) == 0:
-- 
2.43.0


From 7779e389c35094e4c28ffceef894443fc71bc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:57 +0000
Subject: [PATCH 03/36] fix: keep clip, border-spacing, quotes and cursor urls
 when a declaration is copied

The parsers rejected the values they themselves produce, so CSS.copy() lost
clip and border-spacing and raised for quotes and cursors with an url.
---
 src/colosseum/parser.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 2ca5a34..3572a1b 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -156,12 +156,15 @@ def border_spacing(value):
     Parse a border spacing value.
 
     Accepts:
+    * An already converted instance of BorderSpacing
     * A sequence object different that a string.
     * An integer (interpreted as pixels).
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -180,7 +183,15 @@ def border_spacing(value):
 
 
 def rect(value):
-    """Parse a given rect shape."""
+    """Parse a given rect shape.
+
+    Accepts:
+    * An already converted instance of Rect
+    * A string: 'rect(1px, 2px, 3px, 4px)' or 'rect(1px 2px 3px 4px)'
+    """
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -208,11 +219,14 @@ def quotes(value):
     """Parse content quotes.
 
     Accepts:
+    * An already converted instance of Quotes
     * A string: "'<' '>' '{' '}'"
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -415,6 +429,7 @@ def uri(value):
     """Parse a url from a value.
 
     Accepts:
+    * An already converted instance of Uri
     * url("<url>")
     * url(  "<url>"  )
     * url('<url>')
@@ -422,7 +437,9 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From f65ef525fe7898161cc75ce1884451bc0164aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:25 +0000
Subject: [PATCH 04/36] fix: reject wrongly typed clip, border-spacing and
 cursor values with ValueError

They escaped as AttributeError or TypeError; border-spacing also refused a
length that was already a unit.
---
 src/colosseum/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 3572a1b..63fc9d7 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -166,10 +166,12 @@ def border_spacing(value):
         return value
     elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
-    elif isinstance(value, (int, float)):
+    elif isinstance(value, (int, float, Unit)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {value}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -191,6 +193,8 @@ def rect(value):
     """
     if isinstance(value, Rect):
         return value
+    elif not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
 
     value = " ".join(val.strip() for val in value.split())
     if (
@@ -471,6 +475,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Sequence):
+        raise ValueError(f"Unknown cursor {values}")
 
     validated_values = []
     has_cursor_option = False
-- 
2.43.0


From 8fb2104c7c166f927b9788f2f22d556342279edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:35 +0000
Subject: [PATCH 05/36] fix: reject the empty string as a color with ValueError
 instead of IndexError

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 63fc9d7..7b642a9 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -59,7 +59,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
-- 
2.43.0


From 1b09c74bded61fee4ef2a7b62d39b0e024c69a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 06/36] fix: reject signs and blanks inside hexadecimal colors

---
 src/colosseum/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 7b642a9..2d73e48 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Sequence
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -121,6 +122,9 @@ def pound_sign_color(value):
     * '#RRGGBBAA'
     """
 
+    if any(digit not in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
+
     if len(value) == 4:
         return rgb(
             r=int(value[1] + value[1], 16),
-- 
2.43.0


From e4e656d31be2d9149ea3a1dda43f0d336dbf9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:37 +0000
Subject: [PATCH 07/36] fix: require the parentheses of functional color
 notations

'rgbx1,2,3)' was accepted and 'rgb(1,2,34' was read as rgb(1,2,3).
---
 src/colosseum/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 2d73e48..b4bd96b 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -62,7 +62,7 @@ def color(value):
     elif isinstance(value, str):
         if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -71,7 +71,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -79,7 +79,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -92,7 +92,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
-- 
2.43.0


From 70ae8d78dd7e66f611d807c0b68c1b6ebd51b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:09 +0000
Subject: [PATCH 08/36] fix: reject infinite and not-a-number lengths

---
 src/colosseum/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index b4bd96b..829cbdb 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Sequence
+from math import isfinite
 from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
@@ -21,18 +22,22 @@ def units(value):
     """
     if isinstance(value, Unit):
         return value
-    elif isinstance(value, (int, float)):
+    elif isinstance(value, int) or (isinstance(value, float) and isfinite(value)):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
             if value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    number = float(value[: -len(suffix)])
+                    if isfinite(number):
+                        return number * unit
                 except ValueError:
                     pass
 
         try:
-            return float(value) * px
+            number = float(value)
+            if isfinite(number):
+                return number * px
         except ValueError:
             pass
 
-- 
2.43.0


From 25789066a54deb440613ee9528bee9b998bac87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:45 +0000
Subject: [PATCH 09/36] fix: reject angles where a length is expected

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 829cbdb..44a20a0 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -26,7 +26,7 @@ def units(value):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
                     number = float(value[: -len(suffix)])
                     if isfinite(number):
-- 
2.43.0


From ab9555acb68d432528318f0e8834aba7758afb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 10/36] fix: reject infinite integers with ValueError instead
 of OverflowError

---
 src/colosseum/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From 9a462bfe7b76b7354d12844a3cc26321d5596e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:47 +0000
Subject: [PATCH 11/36] fix: do not register every computed unit value as a
 known unit

The registry grew, and parsing slowed down, with every value ever created,
and a suffix could be matched against a multiple of its unit.
---
 src/colosseum/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..33f3522 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,9 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        if val is None:
+            # Only the units themselves are known suffixes, not their multiples.
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From 4febc82dfd5690943967e3251f0dc73783cb1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 12/36] fix: raise TypeError when a unit is multiplied by
 something that is not a number

---
 src/colosseum/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 33f3522..9ba7d74 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -45,6 +45,7 @@ class BaseUnit:
     def __rmul__(self, val):
         if isinstance(val, (int, float)):
             return self.dup(self.val * val)
+        return NotImplemented
 
     def __neg__(self):
         if isinstance(self.val, int):
-- 
2.43.0


From bebfe585d043ff74057f2380a1c9022b41d2480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 13/36] fix: make deletion, clear and in-place operators of
 ImmutableList fail

---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..f4a75be 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, iterable):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 2531ba5ce3132c820a104323a5bb8c7d0e610346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:30 +0000
Subject: [PATCH 14/36] fix: leave all sides unchanged when a directional
 shorthand is rejected

margin = (1, 'bad') raised ValueError after having changed margin-top.
---
 src/colosseum/declaration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..be8ea35 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -230,6 +230,11 @@ def directional_property(name, initial):
         )
 
     def setter(self, value):
+        # Try the value out, so that an invalid side leaves the others alone.
+        set_sides(CSS(), value)
+        set_sides(self, value)
+
+    def set_sides(self, value):
         if isinstance(value, tuple):
             if len(value) == 4:
                 setattr(self, name % "_top", value[0])
-- 
2.43.0


From 5f0cc172a3c6c2b82f7eda2d509617874a70609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 15/36] fix: render none values of a declaration as the CSS
 keyword

---
 src/colosseum/declaration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index be8ea35..38eaa4d 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -763,4 +763,7 @@ class CSS:
             except AttributeError:
                 pass
 
-        return "; ".join(f"{name}: {value}" for name, value in sorted(non_default))
+        return "; ".join(
+            f"{name}: {'none' if value is None else value}"
+            for name, value in sorted(non_default)
+        )
-- 
2.43.0


From c0a72bb3c4e6af158500009e2ab66f127bc8a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 16/36] fix: render hsl colors with percentages, as CSS and the
 parser expect

---
 src/colosseum/colors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 723cf33..b04ed99 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -31,6 +31,9 @@ class hsl(Color):
     def __repr__(self):
         return f"hsla({self.h}, {self.s}, {self.l}, {self.a})"
 
+    def __str__(self):
+        return f"hsla({self.h}, {self.s * 100:g}%, {self.l * 100:g}%, {self.a})"
+
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-- 
2.43.0


From f9669157204de0c8ebb8a6fe0b6a4a87dae57c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:48 +0000
Subject: [PATCH 17/36] fix: allow changes to the style and intrinsic size of a
 node that has no box

After a layout removed the box of a display: none node, every change to the
node, including the one that shows it again, raised AttributeError.
---
 src/colosseum/declaration.py | 4 ++--
 src/colosseum/dimensions.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 38eaa4d..4cdb0e7 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -673,12 +673,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node and self._node.layout:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node and self._node.layout:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..8296818 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From c613c63fd1b46b6211e6c43b3b917e686f1b45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:18 +0000
Subject: [PATCH 18/36] fix: lay out trees in which nodes are not displayed, or
 are displayed again

display: none on the root, on a last child or on a child of block siblings
raised AttributeError, and a node displayed again kept a stale position.
---
 src/colosseum/engine.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..3d52189 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -104,14 +104,27 @@ class DummyFont:
         return 0.71 * self.size
 
 
+def restore_boxes(node):
+    # A node that wasn't displayed has no layout box; if it is
+    # displayed now, it needs one before the tree is laid out.
+    if node.style.display is not None and node.layout is None:
+        node.layout = Box(node)
+    for child in node.children:
+        restore_boxes(child)
+
+
 def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
-    node.layout.reset()
+    restore_boxes(node)
+    if node.layout:
+        node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
+    if node.layout is None:
+        return
 
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
@@ -232,7 +245,12 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            for child in node.children:
+                if child.style.display is None:
+                    layout_box(display, child, node, viewport, font)
+            children = anonymize(
+                child for child in node.children if child.style.display is not None
+            )
             offset_top = 0
             bottom_margin = None
 
@@ -671,8 +689,11 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        children = [
+            child for child in node.children if child.style.display is not None
+        ]
+        if children and children[-1]:
+            last_child = children[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 799163262aec11fc24930c95f3cffd60bfe23752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:06 +0000
Subject: [PATCH 19/36] fix: resolve percentage margins, borders and paddings
 against the width of the containing block

CSS 2.1 8.3 and 8.4: also for the top and bottom sides. Half of the sides
were resolved against the height.
---
 src/colosseum/engine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 3d52189..efb7003 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -197,28 +197,28 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
         node.style.border_top_width, horizontal
     )
     node.layout.border_right_width = calculate_size(
-        node.style.border_right_width, vertical
+        node.style.border_right_width, horizontal
     )
     node.layout.border_bottom_width = calculate_size(
         node.style.border_bottom_width, horizontal
     )
     node.layout.border_left_width = calculate_size(
-        node.style.border_left_width, vertical
+        node.style.border_left_width, horizontal
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From 6db0595e4d889ec9e0865471a424647af3a495f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 20/36] fix: collapse margins that are not a whole number of
 pixels

A margin of 2.5px took no part in margin collapsing.
---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 8296818..631aed2 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -338,7 +338,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -347,7 +347,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -356,7 +356,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -365,7 +365,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From bb6b338566c433e6e48d2015527f1fd1ad8d65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:43 +0000
Subject: [PATCH 21/36] fix: treat auto vertical margins of inline boxes as
 zero

Laying out an inline box with margin-top: auto raised TypeError.
---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index efb7003..0777b28 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -642,6 +642,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From 1eb948ce4205371407136eb8f02c62e5803014ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:11 +0000
Subject: [PATCH 22/36] fix: place inline boxes inside their left margin,
 border and padding

The border box of an inline box stuck out of its container on the left.
---
 src/colosseum/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 0777b28..3b85975 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -379,6 +379,11 @@ def calculate_inline_non_replaced_width(node, context):
 
     # Use the actual width of the node.
     node.layout.content_width = node.intrinsic.width
+    node.layout.content_left = (
+        node.layout.margin_left
+        + node.layout.border_left_width
+        + node.layout.padding_left
+    )
 
 
 def calculate_inline_replaced_width(node, context):
-- 
2.43.0


From 80842caf348622407d58bd4c626e74359bbaa226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:11 +0000
Subject: [PATCH 23/36] fix: keep a first child's top margin inside a container
 that has a top border or padding

CSS 2.1 8.3.1: it only collapses with the container's own margin when nothing
separates them; until now it was lost, as were margins that did collapse
through a container that follows a sibling.
---
 src/colosseum/engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 3b85975..03b6e9a 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -263,9 +263,12 @@ def layout_box(display, node, containing_block, viewport, font):
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    if node.layout.border_top_width or node.layout.padding_top:
+                        offset_top += child.layout.collapse_top
+                    else:
+                        node.layout.collapse_top = child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
-- 
2.43.0


From 73aad0e84d16cf70df5bc340ebbd499f981fb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 24/36] fix: keep a last child's bottom margin inside a
 container that has a bottom border or padding

CSS 2.1 8.3.1: it only collapses with the container's own margin when nothing
separates them.
---
 src/colosseum/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 03b6e9a..a3128af 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -712,7 +712,10 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
 
             # Merge the margin of the last child with
             # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            if node.layout.border_bottom_width or node.layout.padding_bottom:
+                content_height += last_child.layout.collapse_bottom
+            else:
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From 0edec77a70ee6126a4ddb9383aa6438759406456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:55 +0000
Subject: [PATCH 25/36] fix: apply min-height to boxes with children or an
 explicit height

CSS 2.1 10.7; it was only honoured for childless boxes of auto height.
---
 src/colosseum/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index a3128af..685e9fe 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -720,10 +720,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
         else:
-            if node.style.min_height is not AUTO:  # 10.7 Minimum height
-                content_height = node.style.min_height.px(**context)
-            else:
-                content_height = 0
+            content_height = 0
     else:
         if node.parent is not None and node.parent.style.height is not AUTO:
             parent_height = node.parent.style.height.px(**context)
@@ -737,6 +734,11 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             if content_height > content_max_height:
                 content_height = content_max_height
 
+    if node.style.min_height is not AUTO:  # 10.7 Minimum height
+        content_min_height = node.style.min_height.px(**context)
+        if content_height < content_min_height:
+            content_height = content_min_height
+
     node.layout.content_height = content_height
     node.layout.content_top += node.layout.border_top_width + node.layout.padding_top
 
-- 
2.43.0


From 606721ee57bc4e7dd3f86edbe399e2a9e5470086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:22 +0000
Subject: [PATCH 26/36] fix: apply max-height to boxes of auto height

CSS 2.1 10.7.
---
 src/colosseum/engine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 685e9fe..44c5032 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -729,10 +729,11 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             )
         else:
             content_height = node.style.height.px(**context)
-        if node.style.max_height is not None:  # 10.7 Maximum height
-            content_max_height = node.style.max_height.px(**context)
-            if content_height > content_max_height:
-                content_height = content_max_height
+
+    if node.style.max_height is not None:  # 10.7 Maximum height
+        content_max_height = node.style.max_height.px(**context)
+        if content_height > content_max_height:
+            content_height = content_max_height
 
     if node.style.min_height is not AUTO:  # 10.7 Minimum height
         content_min_height = node.style.min_height.px(**context)
-- 
2.43.0


From 3c41ba4c6bee250281be80ce538c684b8b37e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 27/36] fix: let right win over left for relative boxes in
 right-to-left containers

CSS 2.1 9.4.3.
---
 src/colosseum/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 44c5032..0bedd9d 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -297,8 +297,10 @@ def layout_box(display, node, containing_block, viewport, font):
                 value_left = containing_block.layout.content_left
             else:
                 value_left = node.style.left.px(**horizontal)
-        else:  # P7
+        elif (node.parent or node).style.direction is LTR:  # P7
             value_left = node.style.left.px(**horizontal)
+        else:  # P7
+            value_left = -node.style.right.px(**horizontal)
 
         node.layout.content_left += value_left
 
-- 
2.43.0


From ed5e126d956395f026e639bdc816b6890e38c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 28/36] fix: pass a dirty state on to the children of a box
 that already has it

Marking a clean root as clean left a child dirty that had changed since, and
marking a dirty root as dirty left a child clean that had been laid out.
---
 src/colosseum/dimensions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 631aed2..b454be2 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -548,8 +548,7 @@ class Box:
 
     @dirty.setter
     def dirty(self, value):
-        if value != self._dirty:
-            self._dirty = value
-            for child in self.node.children:
-                if child.layout:
-                    child.layout.dirty = value
+        self._dirty = value
+        for child in self.node.children:
+            if child.layout:
+                child.layout.dirty = value
-- 
2.43.0


From 036b4781965c3ac40fb6e62514072874eb53c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:50 +0000
Subject: [PATCH 29/36] fix: use an intrinsic height of zero of inline replaced
 boxes

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 0bedd9d..ed23447 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -680,7 +680,7 @@ def calculate_inline_replaced_height(node, context):
         content_height = node.intrinsic.height
     elif node.style.height is AUTO and node.intrinsic.ratio:  # P3
         content_height = node.layout.content_width * node.intrinsic.ratio
-    elif node.style.height is AUTO and node.intrinsic.height:  # P4
+    elif node.style.height is AUTO and node.intrinsic.height is not None:  # P4
         content_height = node.intrinsic.height
     elif node.style.height is AUTO:  # P5
         content_height = min(node.layout.content_width // 2, 150)
-- 
2.43.0


From fe81b1140588b3c02457a2a20a6c8ce314dbd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 30/36] fix: accept colors with blanks inside their parentheses
 in border and outline shorthands

---
 src/colosseum/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 44a20a0..8f66584 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import re
 from ast import literal_eval
 from collections.abc import Sequence
 from math import isfinite
@@ -279,6 +280,11 @@ def quotes(value):
     raise ValueError("Length of quote items must be a multiple of 2!")
 
 
+def _split_parts(value):
+    """Split the text of a shorthand at white space, but not inside parentheses."""
+    return re.findall(r"(?:\([^()]*\)|\S)+", value)
+
+
 ##############################################################################
 # Outline shorthand
 ##############################################################################
@@ -321,7 +327,7 @@ def outline(value):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = _split_parts(value)
         elif isinstance(value, Sequence):
             values = value
         else:
@@ -389,7 +395,7 @@ def border(value, direction=None):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = _split_parts(value)
         elif isinstance(value, Sequence):
             values = value
         else:
-- 
2.43.0


From b58fa31d91d004b234068a4760e502f9f6219276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 31/36] fix: keep white space inside quotation marks given as
 text

---
 src/colosseum/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 8f66584..12f4990 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -241,7 +241,10 @@ def quotes(value):
     if isinstance(value, Quotes):
         return value
     elif isinstance(value, str):
-        values = [val.strip() for val in value.split()]
+        # Split at white space, but not inside of quoted strings
+        values = re.findall(
+            r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\S)+""", value
+        )
     elif isinstance(value, Sequence):
         # Flatten list of tuples
         values = []
-- 
2.43.0


From 86aedbe6357dec56c4dac403f4aa7375d7440136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 32/36] fix: render none values of a shorthand as the CSS
 keyword

---
 src/colosseum/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index f4a75be..23e50e3 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -117,7 +117,7 @@ class Shorthand:
     def __str__(self):
         parts = []
         for key, value in self.to_dict().items():
-            parts.append(str(value))
+            parts.append("none" if value is None else str(value))
 
         return " ".join(parts)
 
-- 
2.43.0


From e787e4da64fac80fa172d5c9317e67f8830a7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:57 +0000
Subject: [PATCH 33/36] fix: accept commas inside the urls of a cursor

---
 src/colosseum/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 12f4990..5388837 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -492,7 +492,10 @@ def cursor(values):
     from .constants import CURSOR_OPTIONS
 
     if isinstance(values, str):
-        values = [val.strip() for val in values.split(",")]
+        # Split at commas, but not inside of urls
+        values = [
+            val.strip() for val in re.findall(r"(?:^|,)((?:\([^()]*\)|[^,])*)", values)
+        ]
     elif not isinstance(values, Sequence):
         raise ValueError(f"Unknown cursor {values}")
 
-- 
2.43.0


From 2da90fabe06091114121711c77f80a689fad912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 34/36] fix: refuse numbers that are not finite

is_number accepted infinities and NaN, even where bounds were given.
---
 src/colosseum/validators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index a1bd4bb..ea9bc8a 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -3,6 +3,7 @@ Validate values of different css properties.
 """
 
 import re
+from math import isfinite
 
 from . import parser, units
 from .exceptions import ValidationError
@@ -15,6 +16,10 @@ def _numeric_validator(num_value, numeric_type, min_value, max_value):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
+    if isinstance(num_value, float) and not isfinite(num_value):
+        error_msg = f"Value {num_value} is not a finite number"
+        raise ValidationError(error_msg)
+
     if min_value is not None and num_value < min_value:
         error_msg = f"Value {num_value} below minimum value {min_value}"
         raise ValidationError(error_msg)
-- 
2.43.0


From c1405eb17eae2cf22fdc2bbe8dfde7a081b8d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 35/36] fix: refuse fractions as integers

is_integer cut off the fraction of a float, so that z-index, orphans and
widows took 1.5 as 1.
---
 src/colosseum/validators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index ea9bc8a..22087bc 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,11 +11,17 @@ from .exceptions import ValidationError
 
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
-        num_value = numeric_type(num_value)
+        coerced_value = numeric_type(num_value)
     except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
+    if isinstance(num_value, float) and coerced_value != num_value:
+        error_msg = f"Value {num_value} is not of type {numeric_type.__name__}"
+        raise ValidationError(error_msg)
+
+    num_value = coerced_value
+
     if isinstance(num_value, float) and not isfinite(num_value):
         error_msg = f"Value {num_value} is not a finite number"
         raise ValidationError(error_msg)
-- 
2.43.0


From 577457dde4e990633c8b5f3530eda168376865a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 36/36] fix: print shorthand values that contain braces

---
 src/colosseum/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index 23e50e3..6e000f5 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -109,10 +109,9 @@ class Shorthand:
             items.append(f"{key}={repr(value)}")
 
         class_name = self.__class__.__name__
-        string = "{class_name}({items})".format(
+        return "{class_name}({items})".format(
             class_name=class_name, items=", ".join(items)
         )
-        return string.format(**properties)
 
     def __str__(self):
         parts = []
-- 
2.43.0

