From 305df8ed8584f4682415976d566d63e8befd727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:40 +0000
Subject: [PATCH 01/40] fix: correct hsl to rgb conversion for violet hues and
 out-of-range hues

---
 src/colosseum/colors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..723cf33 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = (self.h % 360) / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 71af257a2e2c3a909392bcff95a601494f8c076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:40 +0000
Subject: [PATCH 02/40] fix: don't register every unit value in the global unit
 table

---
 src/colosseum/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..cb23b49 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,9 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        if val is None:
+            # Only the base unit is registered; multiples of a unit are values.
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From a795f3c1b9e427f8f433b8e5f7301528bc37c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:22 +0000
Subject: [PATCH 03/40] fix: block the remaining mutating operations on
 ImmutableList

---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..f596294 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, other):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, other):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From b90cb9630b2619d652729bc8234897bc1b7b664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:37 +0000
Subject: [PATCH 04/40] fix: accept already converted values so that copying a
 declaration keeps them

---
 src/colosseum/parser.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..eddc6ea 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -156,12 +156,15 @@ def border_spacing(value):
     Parse a border spacing value.
 
     Accepts:
+    * An already converted instance of BorderSpacing
     * A sequence object different that a string.
     * An integer (interpreted as pixels).
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -180,7 +183,15 @@ def border_spacing(value):
 
 
 def rect(value):
-    """Parse a given rect shape."""
+    """Parse a given rect shape.
+
+    Accepts:
+    * An already converted instance of Rect
+    * A string: 'rect(<top>, <right>, <left>, <bottom>)'
+    """
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -208,11 +219,14 @@ def quotes(value):
     """Parse content quotes.
 
     Accepts:
+    * An already converted instance of Quotes
     * A string: "'<' '>' '{' '}'"
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -407,6 +421,7 @@ def uri(value):
     """Parse a url from a value.
 
     Accepts:
+    * An already converted instance of Uri
     * url("<url>")
     * url(  "<url>"  )
     * url('<url>')
@@ -414,10 +429,12 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
-        raise ValueError("Value {value} must be a string")
+        raise ValueError(f"Value {value} must be a string")
 
     if value.startswith("url(") and value.endswith(")"):
         # Remove the 'url(' and ')'
-- 
2.43.0


From 7233467494d845dbc8a1248f8f87b11c274a0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:00 +0000
Subject: [PATCH 05/40] fix: reject unsupported value types with ValueError
 rather than crashing

---
 src/colosseum/parser.py     | 20 +++++++++++++++-----
 src/colosseum/validators.py |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index eddc6ea..b050df0 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from collections.abc import Sequence
+from collections.abc import Iterable, Sequence
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -59,7 +59,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
@@ -160,16 +160,19 @@ def border_spacing(value):
     * A sequence object different that a string.
     * An integer (interpreted as pixels).
     * A float (interpreted as pixels).
+    * A unit value.
     * A string with of 1 or 2 length items separated by spaces.
     """
     if isinstance(value, BorderSpacing):
         return value
     elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
-    elif isinstance(value, (int, float)):
+    elif isinstance(value, (int, float, Unit)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {value}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -191,6 +194,8 @@ def rect(value):
     """
     if isinstance(value, Rect):
         return value
+    elif not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
 
     value = " ".join(val.strip() for val in value.split())
     if (
@@ -228,7 +233,7 @@ def quotes(value):
         return value
     elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
-    elif isinstance(value, Sequence):
+    elif isinstance(value, Sequence) and all(isinstance(v, Sequence) for v in value):
         # Flatten list of tuples
         values = [repr(item) for sublist in value for item in sublist]
     else:
@@ -247,6 +252,9 @@ def quotes(value):
                 closing = literal_eval(closing)
                 parsed_values.append((opening, closing))
 
+                if not isinstance(opening, str) or not isinstance(closing, str):
+                    raise ValueError(f"Invalid quotes {value}")
+
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
@@ -463,6 +471,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Iterable):
+        raise ValueError(f"Value {values} is not a valid cursor value")
 
     validated_values = []
     has_cursor_option = False
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From 57df02da958b26348087b8ec427bbf5c7359f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:33 +0000
Subject: [PATCH 06/40] fix: reject non-finite numbers and angles as sizes

---
 src/colosseum/parser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index b050df0..7b290b0 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,5 +1,6 @@
 from ast import literal_eval
 from collections.abc import Iterable, Sequence
+from math import isfinite
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -8,6 +9,14 @@ from .units import Unit, px
 from .wrappers import BorderSpacing, Cursor, Quotes, Uri
 
 
+def _finite(value):
+    "Parse a finite floating point number from a string"
+    number = float(value)
+    if not isfinite(number):
+        raise ValueError(f"Unknown number {value}")
+    return number
+
+
 def units(value):
     """Parse a unit value
 
@@ -21,17 +30,19 @@ def units(value):
     if isinstance(value, Unit):
         return value
     elif isinstance(value, (int, float)):
-        return value * px
+        if isinstance(value, int) or isfinite(value):
+            return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            # Angles are units, but they're not sizes
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    return _finite(value[: -len(suffix)]) * unit
                 except ValueError:
                     pass
 
         try:
-            return float(value) * px
+            return _finite(value) * px
         except ValueError:
             pass
 
-- 
2.43.0


From 977453d46561eb761b502bdde48bcf72e7a70901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:19 +0000
Subject: [PATCH 07/40] fix: reject malformed functional and hexadecimal colors

---
 src/colosseum/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 7b290b0..d1b4206 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,6 +1,7 @@
 from ast import literal_eval
 from collections.abc import Iterable, Sequence
 from math import isfinite
+from string import hexdigits
 
 from .colors import NAMED_COLOR, hsl, rgb
 from .exceptions import ValidationError
@@ -72,7 +73,7 @@ def color(value):
     elif isinstance(value, str):
         if value.startswith("#"):
             return pound_sign_color(value)
-        elif value.startswith("rgba"):
+        elif value.startswith("rgba(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -81,7 +82,7 @@ def color(value):
                     )
             except ValueError:
                 pass
-        elif value.startswith("rgb"):
+        elif value.startswith("rgb(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -89,7 +90,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsla"):
+        elif value.startswith("hsla(") and value.endswith(")"):
             try:
                 values = value[5:-1].split(",")
                 if len(values) == 4:
@@ -102,7 +103,7 @@ def color(value):
             except ValueError:
                 pass
 
-        elif value.startswith("hsl"):
+        elif value.startswith("hsl(") and value.endswith(")"):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
@@ -131,6 +132,8 @@ def pound_sign_color(value):
     * '#RRGGBB'
     * '#RRGGBBAA'
     """
+    if not all(digit in hexdigits for digit in value[1:]):
+        raise ValueError(f"Unknown color {value}")
 
     if len(value) == 4:
         return rgb(
-- 
2.43.0


From 31d1c8f267949b7d0b45bc97cdc5f2a162b88d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:56 +0000
Subject: [PATCH 08/40] fix: don't rely on the truthiness of DOM nodes

---
 src/colosseum/declaration.py |  4 ++--
 src/colosseum/dimensions.py  | 12 ++++++------
 src/colosseum/engine.py      |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..6783727 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node is not None:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node is not None:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..b1dc940 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -233,7 +233,7 @@ class Box:
     def reset(self):
         self._reset()
         for child in self.node.children:
-            if child.layout:
+            if child.layout is not None:
                 child.layout.reset()
 
     ######################################################################
@@ -248,7 +248,7 @@ class Box:
         if value != self.__origin_top:
             self.__origin_top = value
             for child in self.node.children:
-                if child.layout:
+                if child.layout is not None:
                     child.layout._origin_top = self.absolute_content_top
 
     @property
@@ -260,7 +260,7 @@ class Box:
         if value != self.__origin_left:
             self.__origin_left = value
             for child in self.node.children:
-                if child.layout:
+                if child.layout is not None:
                     child.layout._origin_left = self.absolute_content_left
 
     ######################################################################
@@ -275,7 +275,7 @@ class Box:
         if value != self._content_top:
             self._content_top = value
             for child in self.node.children:
-                if child.layout:
+                if child.layout is not None:
                     child.layout._origin_top = self.absolute_content_top
 
     @property
@@ -287,7 +287,7 @@ class Box:
         if value != self._content_left:
             self._content_left = value
             for child in self.node.children:
-                if child.layout:
+                if child.layout is not None:
                     child.layout._origin_left = self.absolute_content_left
 
     @property
@@ -549,5 +549,5 @@ class Box:
         if value != self._dirty:
             self._dirty = value
             for child in self.node.children:
-                if child.layout:
+                if child.layout is not None:
                     child.layout.dirty = value
diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..d564bb4 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -671,7 +671,7 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
+        if node.children:
             last_child = node.children[-1]
             content_height = last_child.layout.border_box_bottom
 
-- 
2.43.0


From ed3eb13423bfb995e48b8f245e40e2045f759c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 09/40] fix: collapse margins that are fractions of a pixel

---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index b1dc940..37dc063 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -336,7 +336,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -345,7 +345,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -354,7 +354,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -363,7 +363,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From 5a362c4d8bd3abfa65594dd8b1ddf89138fe6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 10/40] fix: compare the requested standard by value, not
 identity

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index d564bb4..4b76c35 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -121,7 +121,7 @@ def layout(display, node, standard=HTML5):
     # to the the display.
     # FIXME: Find the actual line in the standard that causes this.
     # It might be in the HTML5 spec, rather than the CSS spec.
-    if standard is HTML5:
+    if standard == HTML5:
         node.layout.content_height = (
             display.content_height
             - node.layout.collapse_top
-- 
2.43.0


From 6d213744488367a632551b2e12dfc0718af7fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:44 +0000
Subject: [PATCH 11/40] fix: resolve auto vertical margins on inline boxes to 0

---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 4b76c35..e207053 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -624,6 +624,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From 92fa970296e291485e83d47f42222eee2dd0110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:45 +0000
Subject: [PATCH 12/40] fix: resolve percentage margins, borders and padding
 against the containing width

---
 src/colosseum/engine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e207053..f195aba 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -184,28 +184,28 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
         node.style.border_top_width, horizontal
     )
     node.layout.border_right_width = calculate_size(
-        node.style.border_right_width, vertical
+        node.style.border_right_width, horizontal
     )
     node.layout.border_bottom_width = calculate_size(
         node.style.border_bottom_width, horizontal
     )
     node.layout.border_left_width = calculate_size(
-        node.style.border_left_width, vertical
+        node.style.border_left_width, horizontal
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From fd6888f2cf1cc74b5f1248203c9e4f1af0f65fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:01 +0000
Subject: [PATCH 13/40] fix: lay out documents containing nodes that are not
 displayed

---
 src/colosseum/declaration.py |  4 ++--
 src/colosseum/dimensions.py  |  6 ++++--
 src/colosseum/engine.py      | 26 +++++++++++++++++++++++---
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 6783727..3ad3a71 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node is not None:
+        if self._node is not None and self._node.layout is not None:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node is not None:
+        if self._node is not None and self._node.layout is not None:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 37dc063..b96a0cf 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout is not None:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout is not None:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index f195aba..33f327a 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,6 +108,11 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
+    generate_boxes(node)
+    if node.layout is None:
+        # The root isn't displayed, so there's nothing to lay out.
+        return
+
     node.layout.reset()
 
     # 10.1 1
@@ -129,6 +134,18 @@ def layout(display, node, standard=HTML5):
         )
 
 
+def generate_boxes(node, displayed=True):
+    "Ensure that displayed nodes, and only displayed nodes, have a layout box"
+    displayed = displayed and node.style.display is not None
+    if not displayed:
+        node.layout = None
+    elif node.layout is None:
+        node.layout = Box(node)
+
+    for child in node.children:
+        generate_boxes(child, displayed)
+
+
 class AnonymousBlockBox:
     def __init__(self):
         self.children = []
@@ -232,7 +249,9 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            children = anonymize(
+                child for child in node.children if child.layout is not None
+            )
             offset_top = 0
             bottom_margin = None
 
@@ -677,8 +696,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children:
-            last_child = node.children[-1]
+        displayed = [child for child in node.children if child.layout is not None]
+        if displayed:
+            last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 7db4532ad5797daf0840affe9713777955e4bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:17 +0000
Subject: [PATCH 14/40] fix: don't partially apply an invalid directional
 property

---
 src/colosseum/declaration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3ad3a71..fbac4ab 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -229,7 +229,7 @@ def directional_property(name, initial):
             getattr(self, name % "_left", initial),
         )
 
-    def setter(self, value):
+    def assign(self, value):
         if isinstance(value, tuple):
             if len(value) == 4:
                 setattr(self, name % "_top", value[0])
@@ -262,6 +262,12 @@ def directional_property(name, initial):
             setattr(self, name % "_bottom", value)
             setattr(self, name % "_left", value)
 
+    def setter(self, value):
+        # Use a scratch declaration to reject an invalid value before any
+        # direction has been modified.
+        assign(CSS(), value)
+        assign(self, value)
+
     def deleter(self):
         delattr(self, name % "_top")
         delattr(self, name % "_right")
-- 
2.43.0


From 844c709d52f9c83801c155b69d63aea026db4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:03 +0000
Subject: [PATCH 15/40] fix: render None values of a declaration using the CSS
 keyword

---
 src/colosseum/declaration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index fbac4ab..c11d773 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -764,4 +764,7 @@ class CSS:
             except AttributeError:
                 pass
 
-        return "; ".join(f"{name}: {value}" for name, value in sorted(non_default))
+        return "; ".join(
+            f"{name}: {'none' if value is None else value}"
+            for name, value in sorted(non_default)
+        )
-- 
2.43.0


From 1bc1a0d629c9c26522f0c2744c07b7b35db019ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:54 +0000
Subject: [PATCH 16/40] fix: keep whitespace inside quoted strings when parsing
 quotes

---
 src/colosseum/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index d1b4206..9c812b1 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import re
 from ast import literal_eval
 from collections.abc import Iterable, Sequence
 from math import isfinite
@@ -234,6 +235,11 @@ def rect(value):
     raise ValueError(f"Unknown shape {value}")
 
 
+QUOTED_STRING_RE = re.compile(
+    r"""'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|\S+""", re.DOTALL
+)
+
+
 def quotes(value):
     """Parse content quotes.
 
@@ -246,7 +252,8 @@ def quotes(value):
     if isinstance(value, Quotes):
         return value
     elif isinstance(value, str):
-        values = [val.strip() for val in value.split()]
+        # Whitespace inside a quoted string is part of the string.
+        values = QUOTED_STRING_RE.findall(value)
     elif isinstance(value, Sequence) and all(isinstance(v, Sequence) for v in value):
         # Flatten list of tuples
         values = [repr(item) for sublist in value for item in sublist]
-- 
2.43.0


From 63d6f4c590902aa45bc3767e0181c65fa36f113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:18 +0000
Subject: [PATCH 17/40] fix: honour an intrinsic height of 0 on replaced inline
 boxes

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 33f327a..7074e01 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -671,7 +671,7 @@ def calculate_inline_replaced_height(node, context):
         content_height = node.intrinsic.height
     elif node.style.height is AUTO and node.intrinsic.ratio:  # P3
         content_height = node.layout.content_width * node.intrinsic.ratio
-    elif node.style.height is AUTO and node.intrinsic.height:  # P4
+    elif node.style.height is AUTO and node.intrinsic.height is not None:  # P4
         content_height = node.intrinsic.height
     elif node.style.height is AUTO:  # P5
         content_height = min(node.layout.content_width // 2, 150)
-- 
2.43.0


From d92f9791dceccf54ba8147b0caf64426e2993fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:08 +0000
Subject: [PATCH 18/40] fix: share all of the available space between two auto
 margins

---
 src/colosseum/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 7074e01..c15fb04 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -551,8 +551,8 @@ def calculate_block_non_replaced_normal_flow_width(node, context):
             - node.layout.padding_right
             - node.layout.border_right_width
         )
-        node.layout.margin_left = avail_margin // 2
-        node.layout.margin_right = avail_margin // 2
+        node.layout.margin_left = avail_margin / 2
+        node.layout.margin_right = avail_margin / 2
 
     else:
         # This branch should never execute.
-- 
2.43.0


From 42e1b1a91ee73f2d2b6758c33048d98cc57cb232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:08 +0000
Subject: [PATCH 19/40] fix: apply the minimum height to boxes with a specified
 height

---
 src/colosseum/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index c15fb04..4410a4b 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -724,6 +724,10 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
             content_max_height = node.style.max_height.px(**context)
             if content_height > content_max_height:
                 content_height = content_max_height
+        if node.style.min_height is not AUTO:  # 10.7 Minimum height
+            content_min_height = node.style.min_height.px(**context)
+            if content_height < content_min_height:
+                content_height = content_min_height
 
     node.layout.content_height = content_height
     node.layout.content_top += node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From 60a53bf644771478a0bf5d2dfa120a27d5a03fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 20/40] fix: collapse margins of siblings with the margins of
 their first children

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 4410a4b..5e50fef 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -266,7 +266,7 @@ def layout_box(display, node, containing_block, viewport, font):
                 if bottom_margin is None:
                     node.layout.collapse_top = child.layout.collapse_top
                 else:
-                    offset_top += max(bottom_margin, child.layout.margin_top)
+                    offset_top += max(bottom_margin, child.layout.collapse_top)
 
                 # Offset the top of the child, relative to the parent.
                 child.layout.content_top += offset_top
-- 
2.43.0


From b16c60578bc789c18a4675dcb63a2f0546250e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:57 +0000
Subject: [PATCH 21/40] fix: don't collapse margins through a border or padding

---
 src/colosseum/engine.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 5e50fef..89e6044 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -264,7 +264,11 @@ def layout_box(display, node, containing_block, viewport, font):
                 # Otherwise, collapse the bottom margin of the previous element
                 # with the top margin of this element, and offset by the result.
                 if bottom_margin is None:
-                    node.layout.collapse_top = child.layout.collapse_top
+                    if node.layout.border_top_width or node.layout.padding_top:
+                        # 8.3.1 - a border or padding separates the margins.
+                        offset_top += child.layout.collapse_top
+                    else:
+                        node.layout.collapse_top = child.layout.collapse_top
                 else:
                     offset_top += max(bottom_margin, child.layout.collapse_top)
 
@@ -703,7 +707,13 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
 
             # Merge the margin of the last child with
             # the margin of the last child.
-            node.layout.collapse_bottom = last_child.layout.collapse_bottom
+            if is_block_level_element(last_child) and (
+                node.layout.border_bottom_width or node.layout.padding_bottom
+            ):
+                # 8.3.1 - a border or padding separates the margins.
+                content_height += last_child.layout.collapse_bottom
+            else:
+                node.layout.collapse_bottom = last_child.layout.collapse_bottom
 
         # elif node.children and node.children[-1] top margin non collapsing with bottom margin:
         #     content_height = bottom border edge of bottom margin
-- 
2.43.0


From 9c556c5516eccf03af42360f9f0c0a1e4a447afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 22/40] fix: reject shorthands with no parts

---
 src/colosseum/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 9c812b1..e7e0f23 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -335,6 +335,9 @@ def outline(value):
         else:
             raise ValueError(f"Unknown outline {value} ")
     else:
+        values = []
+
+    if len(values) == 0:
         raise ValueError(f"Unknown outline {value} ")
 
     # We iteratively split by the first left hand space found and try to validate if that part
@@ -403,6 +406,9 @@ def border(value, direction=None):
         else:
             raise ValueError(f"Unknown border {value} ")
     else:
+        values = []
+
+    if len(values) == 0:
         raise ValueError(f"Unknown border {value} ")
 
     # We iteratively split by the first left hand space found and try to validate if that part
-- 
2.43.0


From 2b1a8c6df43588f19861646dd9fcb00c4e2ab7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:24 +0000
Subject: [PATCH 23/40] fix: reject cursors with no values

---
 src/colosseum/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index e7e0f23..5c812ef 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -529,4 +529,7 @@ def cursor(values):
 
         raise ValueError(f"Value {value} is not a valid cursor value")
 
+    if len(validated_values) == 0:
+        raise ValueError(f"Value {values} is not a valid cursor value")
+
     return Cursor(validated_values)
-- 
2.43.0


From 8188278ec59b79507cbb0ca56ed8d4f5ecc9c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:28 +0000
Subject: [PATCH 24/40] fix: render HSL colors in a form that can be parsed

---
 src/colosseum/colors.py | 4 ++++
 src/colosseum/parser.py | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 723cf33..2784752 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -31,6 +31,10 @@ class hsl(Color):
     def __repr__(self):
         return f"hsla({self.h}, {self.s}, {self.l}, {self.a})"
 
+    def __str__(self):
+        # The CSS syntax has saturation and lightness as percentages.
+        return f"hsla({self.h}, {100 * self.s:g}%, {100 * self.l:g}%, {self.a})"
+
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 5c812ef..d9d2e8c 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -97,8 +97,8 @@ def color(value):
                 if len(values) == 4:
                     return hsl(
                         int(values[0]),
-                        int(values[1].strip().rstrip("%")) / 100.0,
-                        int(values[2].strip().rstrip("%")) / 100.0,
+                        _finite(values[1].strip().rstrip("%")) / 100.0,
+                        _finite(values[2].strip().rstrip("%")) / 100.0,
                         float(values[3]),
                     )
             except ValueError:
@@ -110,8 +110,8 @@ def color(value):
                 if len(values) == 3:
                     return hsl(
                         int(values[0]),
-                        int(values[1].strip().rstrip("%")) / 100.0,
-                        int(values[2].strip().rstrip("%")) / 100.0,
+                        _finite(values[1].strip().rstrip("%")) / 100.0,
+                        _finite(values[2].strip().rstrip("%")) / 100.0,
                     )
             except ValueError:
                 pass
-- 
2.43.0


From 88daaca8d13b78dcd4028fbacfd66739672f4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:05 +0000
Subject: [PATCH 25/40] fix: reject colors with a non-finite alpha

---
 src/colosseum/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index d9d2e8c..502916d 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -79,7 +79,7 @@ def color(value):
                 values = value[5:-1].split(",")
                 if len(values) == 4:
                     return rgb(
-                        int(values[0]), int(values[1]), int(values[2]), float(values[3])
+                        int(values[0]), int(values[1]), int(values[2]), _finite(values[3])
                     )
             except ValueError:
                 pass
@@ -99,7 +99,7 @@ def color(value):
                         int(values[0]),
                         _finite(values[1].strip().rstrip("%")) / 100.0,
                         _finite(values[2].strip().rstrip("%")) / 100.0,
-                        float(values[3]),
+                        _finite(values[3]),
                     )
             except ValueError:
                 pass
-- 
2.43.0


From a763d63c2e936918864620efd64414b95a807fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 26/40] fix: print the percentages of HSL colors in full

---
 src/colosseum/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 2784752..d26a38f 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -33,7 +33,7 @@ class hsl(Color):
 
     def __str__(self):
         # The CSS syntax has saturation and lightness as percentages.
-        return f"hsla({self.h}, {100 * self.s:g}%, {100 * self.l:g}%, {self.a})"
+        return f"hsla({self.h}, {100 * self.s:.15g}%, {100 * self.l:.15g}%, {self.a})"
 
     @property
     def rgb(self):
-- 
2.43.0


From 4237f3a2d7cd35019baa66357984090d5c628750 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 27/40] fix: accept fractional hues in HSL colors

---
 src/colosseum/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 502916d..afd9954 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -19,6 +19,14 @@ def _finite(value):
     return number
 
 
+def _number(value):
+    "Parse a finite number from a string; whole numbers are integers"
+    try:
+        return int(value)
+    except ValueError:
+        return _finite(value)
+
+
 def units(value):
     """Parse a unit value
 
@@ -96,7 +104,7 @@ def color(value):
                 values = value[5:-1].split(",")
                 if len(values) == 4:
                     return hsl(
-                        int(values[0]),
+                        _number(values[0]),
                         _finite(values[1].strip().rstrip("%")) / 100.0,
                         _finite(values[2].strip().rstrip("%")) / 100.0,
                         _finite(values[3]),
@@ -109,7 +117,7 @@ def color(value):
                 values = value[4:-1].split(",")
                 if len(values) == 3:
                     return hsl(
-                        int(values[0]),
+                        _number(values[0]),
                         _finite(values[1].strip().rstrip("%")) / 100.0,
                         _finite(values[2].strip().rstrip("%")) / 100.0,
                     )
-- 
2.43.0


From adcee650727eb3025a131e34065503a695f55100 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 28/40] fix: keep quotes of several characters given as a flat
 sequence

---
 src/colosseum/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index afd9954..3830df6 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -262,7 +262,12 @@ def quotes(value):
     elif isinstance(value, str):
         # Whitespace inside a quoted string is part of the string.
         values = QUOTED_STRING_RE.findall(value)
-    elif isinstance(value, Sequence) and all(isinstance(v, Sequence) for v in value):
+    elif isinstance(value, Sequence) and all(isinstance(v, str) for v in value):
+        values = [repr(item) for item in value]
+    elif isinstance(value, Sequence) and all(
+        isinstance(v, Sequence) and not isinstance(v, str) and len(v) == 2
+        for v in value
+    ):
         # Flatten list of tuples
         values = [repr(item) for sublist in value for item in sublist]
     else:
-- 
2.43.0


From e29160f930e221e5703b9661689fd14df41c2279 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 29/40] fix: accept whitespace inside color functions in border
 and outline

---
 src/colosseum/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 3830df6..406d5bb 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -330,6 +330,11 @@ def _parse_outline_property_part(value, outline_dict):
     raise ValueError(f'Outline value "{value}" not valid!')
 
 
+# The parts of a shorthand are separated by whitespace, but there can be
+# whitespace inside the parentheses of a color function.
+SHORTHAND_PART_RE = re.compile(r"(?:\([^)]*\)|\S)+")
+
+
 def outline(value):
     """
     Parse outline string into a dictionary of outline properties.
@@ -342,7 +347,7 @@ def outline(value):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = SHORTHAND_PART_RE.findall(value)
         elif isinstance(value, Sequence):
             values = value
         else:
@@ -413,7 +418,7 @@ def border(value, direction=None):
     """
     if value:
         if isinstance(value, str):
-            values = [val.strip() for val in value.split()]
+            values = SHORTHAND_PART_RE.findall(value)
         elif isinstance(value, Sequence):
             values = value
         else:
-- 
2.43.0


From 7a2cf18faec1b1e3fcdab046cbbb7db00cf78b67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:42:31 +0000
Subject: [PATCH 30/40] fix: render a style of none in a shorthand in a form
 that can be parsed

---
 src/colosseum/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index f596294..8a64cd4 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -117,7 +117,7 @@ class Shorthand:
     def __str__(self):
         parts = []
         for key, value in self.to_dict().items():
-            parts.append(str(value))
+            parts.append("none" if value is None else str(value))
 
         return " ".join(parts)
 
-- 
2.43.0


From 6358f9a0b5852d8f15fbd3d2bef4187c503605c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 31/40] fix: accept commas inside the URLs of cursors

---
 src/colosseum/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 406d5bb..5b03c0f 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -510,12 +510,18 @@ def uri(value):
 ##############################################################################
 # Cursor
 ##############################################################################
+# Cursors are separated by commas, but a comma inside a url isn't a separator.
+CURSOR_PART_RE = re.compile(
+    r"""((?:url\(\s*(?:"[^"]*"|'[^']*'|[^)"']*)\s*\)|[^,])*),"""
+)
+
+
 def cursor(values):
     """Parse a cursor from a value."""
     from .constants import CURSOR_OPTIONS
 
     if isinstance(values, str):
-        values = [val.strip() for val in values.split(",")]
+        values = [val.strip() for val in CURSOR_PART_RE.findall(values + ",")]
     elif not isinstance(values, Iterable):
         raise ValueError(f"Value {values} is not a valid cursor value")
 
-- 
2.43.0


From a1be70704fdac071fb14986202b06c2e0fb0fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 32/40] fix: reject numbers with underscores or non-ASCII
 digits

---
 src/colosseum/parser.py     | 16 ++++++++++++----
 src/colosseum/validators.py |  4 ++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 5b03c0f..4e51fdc 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -11,9 +11,16 @@ from .units import Unit, px
 from .wrappers import BorderSpacing, Cursor, Quotes, Uri
 
 
+def _digits(value):
+    "Refuse what Python reads as a number, but CSS doesn't"
+    if "_" in value or not value.isascii():
+        raise ValueError(f"Unknown number {value}")
+    return value
+
+
 def _finite(value):
     "Parse a finite floating point number from a string"
-    number = float(value)
+    number = float(_digits(value))
     if not isfinite(number):
         raise ValueError(f"Unknown number {value}")
     return number
@@ -22,7 +29,7 @@ def _finite(value):
 def _number(value):
     "Parse a finite number from a string; whole numbers are integers"
     try:
-        return int(value)
+        return int(_digits(value))
     except ValueError:
         return _finite(value)
 
@@ -87,7 +94,8 @@ def color(value):
                 values = value[5:-1].split(",")
                 if len(values) == 4:
                     return rgb(
-                        int(values[0]), int(values[1]), int(values[2]), _finite(values[3])
+                        *[int(_digits(channel)) for channel in values[:3]],
+                        _finite(values[3]),
                     )
             except ValueError:
                 pass
@@ -95,7 +103,7 @@ def color(value):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
-                    return rgb(int(values[0]), int(values[1]), int(values[2]))
+                    return rgb(*[int(_digits(channel)) for channel in values])
             except ValueError:
                 pass
 
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index a1bd4bb..5934eef 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -9,6 +9,10 @@ from .exceptions import ValidationError
 
 
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
+    if isinstance(num_value, str) and ("_" in num_value or not num_value.isascii()):
+        # Python would read this as a number
+        raise ValidationError(f"Cannot coerce {num_value} to {numeric_type.__name__}")
+
     try:
         num_value = numeric_type(num_value)
     except (ValueError, TypeError, OverflowError):
-- 
2.43.0


From 6327ffba160d83bc23b86746bb005bc109999c26 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 33/40] fix: reject fractional numbers where an integer is
 required

---
 src/colosseum/validators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 5934eef..2a0b653 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -13,6 +13,9 @@ def _numeric_validator(num_value, numeric_type, min_value, max_value):
         # Python would read this as a number
         raise ValidationError(f"Cannot coerce {num_value} to {numeric_type.__name__}")
 
+    if numeric_type is int and isinstance(num_value, float) and num_value % 1:
+        raise ValidationError(f"{num_value} is not an integer")
+
     try:
         num_value = numeric_type(num_value)
     except (ValueError, TypeError, OverflowError):
-- 
2.43.0


From 60a7535af890e079686079507d15688dee22ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 34/40] fix: reject HSL percentages with more than one percent
 sign

---
 src/colosseum/parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 4e51fdc..5b9db3e 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -34,6 +34,12 @@ def _number(value):
         return _finite(value)
 
 
+def _percentage(value):
+    "Parse a percentage of an HSL color as a fraction"
+    value = value.strip()
+    return _finite(value[:-1] if value.endswith("%") else value) / 100.0
+
+
 def units(value):
     """Parse a unit value
 
@@ -113,8 +119,8 @@ def color(value):
                 if len(values) == 4:
                     return hsl(
                         _number(values[0]),
-                        _finite(values[1].strip().rstrip("%")) / 100.0,
-                        _finite(values[2].strip().rstrip("%")) / 100.0,
+                        _percentage(values[1]),
+                        _percentage(values[2]),
                         _finite(values[3]),
                     )
             except ValueError:
@@ -126,8 +132,8 @@ def color(value):
                 if len(values) == 3:
                     return hsl(
                         _number(values[0]),
-                        _finite(values[1].strip().rstrip("%")) / 100.0,
-                        _finite(values[2].strip().rstrip("%")) / 100.0,
+                        _percentage(values[1]),
+                        _percentage(values[2]),
                     )
             except ValueError:
                 pass
-- 
2.43.0


From dd4ac835dcb6a2f32e528e47bc3f1a06ccf3c858 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 35/40] fix: reject numbers that are not finite

---
 src/colosseum/validators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 2a0b653..dc09534 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -3,6 +3,7 @@ Validate values of different css properties.
 """
 
 import re
+from math import isfinite
 
 from . import parser, units
 from .exceptions import ValidationError
@@ -22,6 +23,9 @@ def _numeric_validator(num_value, numeric_type, min_value, max_value):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
+    if isinstance(num_value, float) and not isfinite(num_value):
+        raise ValidationError(f"Value {num_value} is not finite")
+
     if min_value is not None and num_value < min_value:
         error_msg = f"Value {num_value} below minimum value {min_value}"
         raise ValidationError(error_msg)
-- 
2.43.0


From 66a84f8ce46795c288901eb427894f8c242de4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:48 +0000
Subject: [PATCH 36/40] fix: read white space in the URLs of cursors in linear
 time

---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 5b9db3e..2a3a4f9 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -526,7 +526,7 @@ def uri(value):
 ##############################################################################
 # Cursors are separated by commas, but a comma inside a url isn't a separator.
 CURSOR_PART_RE = re.compile(
-    r"""((?:url\(\s*(?:"[^"]*"|'[^']*'|[^)"']*)\s*\)|[^,])*),"""
+    r"""((?:url\((?:\s*"[^"]*"\s*|\s*'[^']*'\s*|[^)"']*)\)|[^,])*),"""
 )
 
 
-- 
2.43.0


From 194ea659fc1f890b6fd41f7910395efb68fc056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:50 +0000
Subject: [PATCH 37/40] fix: match colour names by ASCII case only

A name spelled with a non-ASCII letter whose lower case is an ASCII one,
such as the Kelvin sign in 'dar\u212Akhaki', was accepted.
---
 src/colosseum/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 2a3a4f9..25c3140 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -137,7 +137,8 @@ def color(value):
                     )
             except ValueError:
                 pass
-        else:
+        elif value.isascii():
+            # Names are matched ASCII case-insensitively
             try:
                 return NAMED_COLOR[value.lower()]
             except KeyError:
-- 
2.43.0


From 2d24765b0e43c8399b691bbf21fed83c2ef3937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:24 +0000
Subject: [PATCH 38/40] fix: clip the components of colour functions to their
 ranges

---
 src/colosseum/parser.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 25c3140..d598068 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -37,7 +37,18 @@ def _number(value):
 def _percentage(value):
     "Parse a percentage of an HSL color as a fraction"
     value = value.strip()
-    return _finite(value[:-1] if value.endswith("%") else value) / 100.0
+    value = _finite(value[:-1] if value.endswith("%") else value)
+    return min(max(value, 0), 100) / 100.0
+
+
+def _channel(value):
+    "Parse a channel of an RGB color, clipped to its range"
+    return min(max(int(_digits(value)), 0), 255)
+
+
+def _alpha(value):
+    "Parse the alpha of a color, clipped to its range"
+    return min(max(_finite(value), 0.0), 1.0)
 
 
 def units(value):
@@ -100,8 +111,8 @@ def color(value):
                 values = value[5:-1].split(",")
                 if len(values) == 4:
                     return rgb(
-                        *[int(_digits(channel)) for channel in values[:3]],
-                        _finite(values[3]),
+                        *[_channel(channel) for channel in values[:3]],
+                        _alpha(values[3]),
                     )
             except ValueError:
                 pass
@@ -109,7 +120,7 @@ def color(value):
             try:
                 values = value[4:-1].split(",")
                 if len(values) == 3:
-                    return rgb(*[int(_digits(channel)) for channel in values])
+                    return rgb(*[_channel(channel) for channel in values])
             except ValueError:
                 pass
 
@@ -121,7 +132,7 @@ def color(value):
                         _number(values[0]),
                         _percentage(values[1]),
                         _percentage(values[2]),
-                        _finite(values[3]),
+                        _alpha(values[3]),
                     )
             except ValueError:
                 pass
-- 
2.43.0


From 0f93b941c493b1254bf621e37a0ab51510a48c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:24 +0000
Subject: [PATCH 39/40] fix: refuse urls with an unbalanced quote

---
 src/colosseum/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index d598068..00cabca 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -519,6 +519,12 @@ def uri(value):
         # Remove the 'url(' and ')'
         value = value[4:-1].strip()
 
+        # A quote has to be closed by the same quote
+        for quote in ("'", '"'):
+            if value.startswith(quote) or value.endswith(quote):
+                if len(value) < 2 or value[0] != value[-1]:
+                    raise ValueError(f"Invalid url {value}")
+
         # Single quotes and optional spaces
         if value.startswith("'") and value.endswith("'"):
             return Uri(value[1:-1])
-- 
2.43.0


From cc12abfbfa693508adc61376e7a7420332698aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:25 +0000
Subject: [PATCH 40/40] fix: colours with the same components are equal

---
 src/colosseum/colors.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index d26a38f..7a20671 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -11,6 +11,17 @@ class rgb(Color):
         self.b = b
         self.a = a
 
+    def __eq__(self, other):
+        return isinstance(other, rgb) and (self.r, self.g, self.b, self.a) == (
+            other.r,
+            other.g,
+            other.b,
+            other.a,
+        )
+
+    def __hash__(self):
+        return hash((self.r, self.g, self.b, self.a))
+
     def __repr__(self):
         return f"rgba({self.r}, {self.g}, {self.b}, {self.a})"
 
@@ -28,6 +39,17 @@ class hsl(Color):
         self.l = l  # noqa
         self.a = a
 
+    def __eq__(self, other):
+        return isinstance(other, hsl) and (self.h, self.s, self.l, self.a) == (
+            other.h,
+            other.s,
+            other.l,
+            other.a,
+        )
+
+    def __hash__(self):
+        return hash((self.h, self.s, self.l, self.a))
+
     def __repr__(self):
         return f"hsla({self.h}, {self.s}, {self.l}, {self.a})"
 
-- 
2.43.0

