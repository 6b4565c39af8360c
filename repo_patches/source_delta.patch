From 49b145302501581a6d6850a83168b0bdb011cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 01/65] fix: resolve y position of horizontal box's children
 against its height

---
 elsie/boxtree/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..7de68a5 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -162,7 +162,7 @@ class Layout:
                 w = w.compute(rect.width, fill_unit)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
-                    y = child._y.compute(rect.y, rect.width, h)
+                    y = child._y.compute(rect.y, rect.height, h)
                 else:
                     y = rect.y + (rect.height - h) / 2
                 if child._x is None:
-- 
2.43.0


From efebf5fa82cefc8be0d10d17b87faecd0393f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 02/65] fix: a repeated escape character is a literal
 character, as documented

---
 elsie/text/textparser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 81860e0..185502f 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -61,7 +61,12 @@ def parse_text(text, escape_char="~", begin_char="{", end_char="}"):
     counter = 0
     while i < len(text):
         c = text[i]
-        if c == escape_char:
+        if c == escape_char and text[i + 1 : i + 2] == escape_char:
+            # Repeated escape character stands for the character itself
+            result.append(("text", text[start : i + 1]))
+            i += 2
+            start = i
+        elif c == escape_char:
             result.append(("text", text[start:i]))
             i += 1
             start = i
-- 
2.43.0


From 5d3b1dd130039560710968cb0f1e73b258fdacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 03/65] fix: reopen style-less inline sections on the next line
 of SVG text

---
 elsie/render/backends/svg/draw.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..744f2b3 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
-- 
2.43.0


From e4177bf31b74781be4544b85cfc1dc4cbaf9aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 04/65] fix: restore priority of the enclosing style when an
 inline style ends

---
 elsie/render/backends/svg/draw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 744f2b3..eead3c1 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -109,8 +109,10 @@ def draw_text(
         elif token_type == "end":
             xml.close("tspan")
             active_styles.pop()
-            if active_styles and active_styles[-1] is not None:
-                current_priority = active_styles[-1].priority
+            for s in reversed(active_styles):
+                if s is not None:
+                    current_priority = s.priority
+                    break
         else:
             raise Exception("Invalid token")
 
-- 
2.43.0


From d750483b78ccab8dd596b5678ffddc4a36fa104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 05/65] fix: let bold=False and italic=False override the
 enclosing style in SVG text

---
 elsie/render/backends/svg/draw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index eead3c1..c757baf 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -16,10 +16,10 @@ def set_font_from_style(xml, style):
         s += "fill:{};".format(style.color)
     if style.opacity is not None:
         s += f"fill-opacity:{style.opacity};"
-    if style.bold:
-        s += "font-weight: bold;"
-    if style.italic:
-        s += "font-style: italic;"
+    if style.bold is not None:
+        s += "font-weight: {};".format("bold" if style.bold else "normal")
+    if style.italic is not None:
+        s += "font-style: {};".format("italic" if style.italic else "normal")
     if s:
         xml.set("style", s)
 
-- 
2.43.0


From 8796fb04b38fd9a60841ebee24d3769b6b48b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 06/65] fix: escape apostrophes in XML attribute values

---
 elsie/utils/sxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index a190d65..d2c93cf 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -22,9 +22,10 @@ class Xml:
 
     def set(self, name, value, escape=True):
         assert self.is_open
+        value = escape_text(str(value))
         if escape:
-            value = str(value).replace("'", "\\'")
-        self.chunks.append(" {}='{}'".format(name, escape_text(value)))
+            value = value.replace("'", "&#39;")
+        self.chunks.append(" {}='{}'".format(name, value))
 
     def text(self, text):
         self._close()
-- 
2.43.0


From 35e92f0701f48b3d4a00d4de56c4c17532dd2d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 07/65] fix: compute text scale from the natural size on every
 layout

---
 elsie/text/textboxitem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..9c95bc5 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -35,8 +35,10 @@ class TextBoxItem(BoxItem):
 
         if scale_to_fit:
 
+            natural_size = self._text_size
+
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = natural_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From 369acdbd680f1c39c8f91e188c510c834df09f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 08/65] fix: hide '**1' elements of an image after the first
 fragment even if no other fragment is named

---
 elsie/boxtree/boxmixin.py | 8 ++++++--
 elsie/render/image.py     | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..304bce8 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -6,7 +6,7 @@ import lxml.etree as et
 from PIL import Image
 
 from ..render.backends.svg.utils import svg_size_to_pixels
-from ..render.image import create_image_data, get_image_steps
+from ..render.image import create_image_data, get_image_steps, has_fragments
 from ..render.ora import convert_ora_to_svg
 from ..shapes import arrow
 from ..shapes.path import (
@@ -616,7 +616,11 @@ class BoxMixin:
 
         image_data = None
 
-        if image_steps == 1 and not select_fragments:
+        if (
+            image_steps == 1
+            and not select_fragments
+            and not (fragments and has_fragments(root))
+        ):
             image_data = et.tostring(root).decode()
 
         def draw(ctx):
diff --git a/elsie/render/image.py b/elsie/render/image.py
index bb50de6..fe26fb3 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -19,6 +19,10 @@ def get_image_steps(root):
     return steps
 
 
+def has_fragments(root):
+    return any(parse_show_info_from_label(element) for element in root.iter())
+
+
 def create_image_data(root, step):
     hidden = []
 
-- 
2.43.0


From 8b6addd29aa880ccb79d463ffd7bb2e96a372b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 09/65] fix: keep the text that follows a hidden element of an
 image

---
 elsie/render/image.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elsie/render/image.py b/elsie/render/image.py
index fe26fb3..3b2aa55 100644
--- a/elsie/render/image.py
+++ b/elsie/render/image.py
@@ -37,5 +37,12 @@ def create_image_data(root, step):
     root = deepcopy(root)
     find_hidden_elements(root)
     for element, child in hidden:
+        if child.tail:
+            # The text behind the element is not part of it
+            previous = child.getprevious()
+            if previous is not None:
+                previous.tail = (previous.tail or "") + child.tail
+            else:
+                element.text = (element.text or "") + child.tail
         element.remove(child)
     return et.tostring(root).decode()
-- 
2.43.0


From 2e4375f5013a0846e45544acb508a5227737ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 10/65] fix: allow name policies in decks with raw PDF pages

---
 elsie/slides/slide.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..5733bf1 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -68,6 +68,8 @@ class Slide:
 
 
 class ExternPdfSlide:
+    name = None
+
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
 
-- 
2.43.0


From d85465aad7b296d45e4bd8337ba2b9af45c8fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 11/65] fix: skip raw PDF pages, which have no root box, in
 slide postprocessing

---
 elsie/slides/slidedeck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From f43c12a3489875df01bb74c3ac4332740b8b912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 12/65] fix: do not rely on cache files that have been removed

---
 elsie/utils/cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..8ddb34e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -47,7 +47,7 @@ class FsCache:
                     condition.wait()
                     assert cache_file in self.cache_files
                 return full_path
-            if cache_file in self.cache_files:
+            if cache_file in self.cache_files and os.path.isfile(full_path):
                 return full_path
 
         condition = threading.Condition(self.lock)
@@ -61,14 +61,16 @@ class FsCache:
 
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+            if os.path.isfile(self._full_path(filename)):
+                os.remove(self._full_path(filename))
+            self.cache_files.discard(filename)
 
     def get(self, input_data, data_type, constructor):
         cache_file = self._get_filename(input_data, data_type)
         self.touched_files.add(cache_file)
         full_path = os.path.join(self.cache_dir, cache_file)
 
-        if cache_file in self.cache_files:
+        if cache_file in self.cache_files and os.path.isfile(full_path):
             with open(full_path, "r") as f:
                 return f.read()
 
-- 
2.43.0


From 39309715545177530a89b6516a19445cfe269235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 13/65] fix: never leave an incomplete file under the name of a
 valid cache entry

---
 elsie/utils/cache.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 8ddb34e..1e5f5a0 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -52,11 +52,19 @@ class FsCache:
 
         condition = threading.Condition(self.lock)
         self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+        # The file gets its name only when it is complete
+        tmp_path = self._full_path("tmp." + cache_file)
+        try:
+            if os.path.isfile(tmp_path):
+                os.remove(tmp_path)
+            constructor(input_data, tmp_path, data_type)
+            os.replace(tmp_path, full_path)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
@@ -75,8 +83,10 @@ class FsCache:
                 return f.read()
 
         result = constructor(input_data)
-        with open(full_path, "w") as f:
+        tmp_path = self._full_path("tmp." + cache_file)
+        with open(tmp_path, "w") as f:
             f.write(result)
+        os.replace(tmp_path, full_path)
         self.cache_files.add(cache_file)
         return result
 
-- 
2.43.0


From 16f16feb9ebc5c51ab8e2beec43f68826c0cb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 14/65] fix: write the query cache atomically

---
 elsie/render/backends/svg/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..8206fa2 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -137,5 +137,7 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
+        tmp_file = cache_file + ".tmp"
+        with open(tmp_file, "w") as f:
             json.dump(cache_config, f)
+        os.replace(tmp_file, cache_file)
-- 
2.43.0


From 8f78b38f597d7822c399987509f8ee60f2458d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 15/65] fix: keep used queries in the cache when a deck is
 rendered repeatedly

---
 elsie/render/backends/svg/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 8206fa2..3160f30 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -80,8 +80,9 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        # Queries are made when a deck is built, not when it is rendered, hence
+        # the used ones have to stay marked for the next render
+        self.query_cache = self.used_query_cache.copy()
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From 7ce723b85acd012b4f30864a21783fa49dd35883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 16/65] fix: do not mix cached exports with and without
 text_to_path

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3160f30..e9486ee 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -69,7 +69,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From 58ea291838a230d244fa9c9d4f7dc6e1a11eab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 17/65] fix: report a terminated Inkscape process instead of
 waiting for it forever

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..57e57c1 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape process terminated unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From 08db9e18394123ec7436862a1968a4521b85ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 18/65] fix: do not let Inkscape block on its unread error
 output

---
 elsie/render/inkscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 57e57c1..3174f19 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -22,7 +22,7 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=subprocess.DEVNULL,  # nobody reads it and a full pipe would block Inkscape
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From 1be025340268be6f5183175c2a5d88e6b0923b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 19/65] fix: do not apply dashes of an ellipse to the shapes
 drawn after it (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..0f30bbc 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -132,7 +132,8 @@ class CairoRenderingContext(RenderingContext):
                 draw()
         # Do not apply transform to stroke (https://www.cairographics.org/cookbook/ellipses/)
         if color:
-            stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
+            with ctx_scope(self.ctx):
+                stroke_shape(self.ctx, lambda: ..., color=color, **kwargs)
 
     def draw_polygon(self, points, rotation=None, **kwargs):
         with ctx_scope(self.ctx):
-- 
2.43.0


From 9e890bf56d61f016ae54141126c48319db75f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 20/65] fix: keep colors of translucent pixels in PNG files
 exported by Cairo

---
 elsie/render/backends/cairo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..d5ab7de 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -71,7 +71,7 @@ class CairoRenderUnit(RenderUnit):
                 (self.ctx.width, self.ctx.height),
                 self.ctx.surface.get_data(),
                 "raw",
-                "BGRA",
+                "BGRa",  # Cairo stores premultiplied colors
                 0,
                 1,
             )
-- 
2.43.0


From bb9003a04109510e75b583eca0a78cf102c526e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 21/65] fix: compute extents of the nested inline style itself,
 not of the outermost one (Cairo)

---
 elsie/render/backends/cairo/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index 70f1cb9..a36cb6b 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -174,6 +174,7 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
     stack = []
     byte_count = 0
     start = None
+    depth = None
 
     for i, (type, value) in enumerate(parsed_text):
         if type == "text":
@@ -183,10 +184,11 @@ def get_byte_range(parsed_text, id_index) -> Tuple[int, int]:
         elif type == "begin":
             if i == id_index:
                 start = byte_count
+                depth = len(stack)
             stack.append(value)
         elif type == "end":
             stack.pop()
-            if start is not None and not stack:
+            if start is not None and len(stack) == depth:
                 return (start, byte_count)
     assert False
 
-- 
2.43.0


From 4e1e59a4a7c12bea2f53717e0297f2b06b7ea2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 22/65] fix: reject surplus parentheses in fill size

---
 elsie/boxtree/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/boxtree/value.py b/elsie/boxtree/value.py
index 36f42ec..35b4e5b 100644
--- a/elsie/boxtree/value.py
+++ b/elsie/boxtree/value.py
@@ -6,7 +6,7 @@ from .lazy import LazyValue
 
 class SizeValue:
     parser = re.compile(
-        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]+$"
+        r"^(?P<min_size>\d+)$|^(?P<ratio>\d+)%$|^(?P<fill_1>fill)$|^fill[(](?P<fill>\d+)[)]$"
     )  # noqa
 
     def __init__(self, min_size=0, ratio=None, fill=0, lazy_value=None):
-- 
2.43.0


From 8c18574ce601a6269cf2ee9e7b1428bb4ea90779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 23/65] fix: rename every reference to an id, and only whole
 ids, in LaTeX images

---
 elsie/render/backends/svg/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index a123166..25b0507 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -1,3 +1,4 @@
+import re
 from typing import TYPE_CHECKING, Tuple
 
 if TYPE_CHECKING:
@@ -39,18 +40,20 @@ def svg_size_to_pixels(text):
 
 
 def rename_ids(root, suffix):
-    ids = []
+    ids = set()
     for e in root.iter():
         e_id = e.get("id")
         if e_id:
-            ids.append("#" + e_id)
+            ids.add("#" + e_id)
             e.set("id", e_id + suffix)
 
+    def rename(match):
+        return match.group() + suffix if match.group() in ids else match.group()
+
     for e in root.iter():
         for name, value in e.attrib.items():
-            for e_id in ids:
-                if e_id in value:
-                    e.set(name, value.replace(e_id, e_id + suffix))
+            if "#" in value:
+                e.set(name, re.sub(r"#[^\s#()'\",;]+", rename, value))
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 2ca22c29dea00c703724f5fb9c2b7355c5d28574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 24/65] fix: draw LaTeX in its own size, not in the size of its
 box (Cairo)

---
 elsie/ext/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index f8c8435..9487523 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -77,8 +77,8 @@ def _draw(parent, svg, svg_width, svg_height, scale, ctx):
         svg=svg,
         x=x,
         y=y,
-        width=rect.width,
-        height=rect.height,
+        width=svg_width,
+        height=svg_height,
         scale=scale,
     )
 
-- 
2.43.0


From ebe1c1935df2049ebaa610e1ad527f8171bbc225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 25/65] fix: allow nested lists that start at zero, as
 top-level lists do

---
 elsie/ext/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..15728db 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -158,7 +158,7 @@ class ListBuilder:
         self, default_label, start=None, indent=None, label=None, level=None, **box_args
     ):
         start = start if start is not None else 1
-        assert start >= 1
+        assert start >= 0
         indent = indent if indent is not None else self.default_indent
         level = level if level is not None else self.level
 
-- 
2.43.0


From 0796c6ca9069fbce52eb308a5b2e68dd114e1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 26/65] fix: let a filling box with its own position fill its
 parent, also on the main axis

---
 elsie/boxtree/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 7de68a5..5142f2f 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -148,7 +148,8 @@ class Layout:
             w, h = child.compute_size_request()
             if not self.horizontal:
                 w = w.compute(rect.width, None)
-                h = h.compute(rect.height, fill_unit)
+                # A box with its own position does not share space with others
+                h = h.compute(rect.height, fill_unit if child._y is None else None)
                 if child._x is not None:
                     x = child._x.compute(rect.x, rect.width, w)
                 else:
@@ -159,7 +160,7 @@ class Layout:
                 else:
                     y = child._y.compute(rect.y, rect.height, h)
             else:
-                w = w.compute(rect.width, fill_unit)
+                w = w.compute(rect.width, fill_unit if child._x is None else None)
                 h = h.compute(rect.height, None)
                 if child._y is not None:
                     y = child._y.compute(rect.y, rect.height, h)
-- 
2.43.0


From f8e7c5dc5212f57260ad3a9f316a2c51964a6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 27/65] fix: merge inline styles with highlighting if they
 enclose newlines around the code

---
 elsie/boxtree/boxmixin.py | 15 +++++----------
 elsie/text/textparser.py  | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 304bce8..ce728c2 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -20,6 +20,7 @@ from ..text.highlight import highlight_code
 from ..text.textparser import (
     add_line_numbers,
     parse_text,
+    strip_newlines,
     tokens_merge,
     tokens_to_text_without_style,
 )
@@ -721,19 +722,13 @@ class BoxMixin:
 
         if language:
             if use_styles:
-                # pygments strips newlines at the beginning
-                # of whole text
-                # and it makes a problem with mering styles
-                # therefore we strips newlines right away
-
-                start_newlines = 0
-                while text.startswith("\n"):
-                    start_newlines += 1
-                    text = text[1:]
-
                 ptext = parse_text(
                     text, escape_char, begin_char=begin_char, end_char=end_char
                 )
+                # pygments strips newlines around the whole text
+                # and it makes a problem with merging styles
+                # therefore we strip newlines (also styled ones) right away
+                ptext, start_newlines = strip_newlines(ptext)
                 text = tokens_to_text_without_style(ptext)
             parsed_text = highlight_code(text, language)
             if use_styles:
diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 185502f..31c06b6 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -165,6 +165,23 @@ def tokens_to_text_without_style(tokens):
     return "".join(result)
 
 
+def strip_newlines(tokens):
+    """
+    Removes newlines before the first and after the last text.
+
+    Returns new tokens and the number of newlines removed from the beginning.
+    """
+    texts = [i for i, token in enumerate(tokens) if token[0] == "text"]
+    first, last = (texts[0], texts[-1]) if texts else (len(tokens), len(tokens))
+    start_newlines = sum(v for name, v in tokens[:first] if name == "newline")
+    tokens = [
+        token
+        for i, token in enumerate(tokens)
+        if token[0] != "newline" or first < i < last
+    ]
+    return tokens, start_newlines
+
+
 def tokens_merge(tokens1, tokens2):
     tokens = _tokens_merge_helper(tokens1, tokens2)
     result = []
-- 
2.43.0


From 2c2dcee6e70135cd9f1b8bfe492a961d46fea68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 28/65] fix: draw tokens without a style of their own in the
 style of the parent token

---
 elsie/boxtree/boxmixin.py |  2 +-
 elsie/text/highlight.py   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index ce728c2..fdd47ea 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -730,7 +730,7 @@ class BoxMixin:
                 # therefore we strip newlines (also styled ones) right away
                 ptext, start_newlines = strip_newlines(ptext)
                 text = tokens_to_text_without_style(ptext)
-            parsed_text = highlight_code(text, language)
+            parsed_text = highlight_code(text, language, self._get_box()._styles)
             if use_styles:
                 parsed_text = tokens_merge(parsed_text, ptext)
                 if start_newlines:
diff --git a/elsie/text/highlight.py b/elsie/text/highlight.py
index de12711..fcf68d1 100644
--- a/elsie/text/highlight.py
+++ b/elsie/text/highlight.py
@@ -8,9 +8,19 @@ from .textstyle import TextStyle
 
 
 class MyFormatter(Formatter):
-    def __init__(self):
+    def __init__(self, styles=None):
         super().__init__()
         self.stream = []
+        self.styles = styles
+
+    def style_name(self, ttype):
+        name = "pygments-" + str(ttype)
+        if self.styles is not None:
+            # A token type that the theme does not define is drawn as its parent
+            while name not in self.styles and ttype.parent is not None:
+                ttype = ttype.parent
+                name = "pygments-" + str(ttype)
+        return name
 
     def format(self, tokensource, outfile):
         stream = self.stream
@@ -18,7 +28,7 @@ class MyFormatter(Formatter):
             if value == "\n":
                 stream.append(NEWLINE_1)
             else:
-                stream.append(("begin", "pygments-" + str(ttype)))
+                stream.append(("begin", self.style_name(ttype)))
                 if "\n" in value:
                     for t in value.split("\n"):
                         if t:
@@ -30,9 +40,9 @@ class MyFormatter(Formatter):
                 stream.append(("end", None))
 
 
-def highlight_code(code, language):
+def highlight_code(code, language, styles=None):
     lexer = get_lexer_by_name(language)
-    formatter = MyFormatter()
+    formatter = MyFormatter(styles)
     highlight(code, lexer, formatter)
     return normalize_tokens(formatter.stream)
 
-- 
2.43.0


From eb85c842a7d6a2a851f488c48abbb170ee14789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 29/65] fix: reopen crossing inline styles in their original
 order when merging with highlighting

---
 elsie/text/textparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/text/textparser.py b/elsie/text/textparser.py
index 31c06b6..8227bc0 100644
--- a/elsie/text/textparser.py
+++ b/elsie/text/textparser.py
@@ -207,7 +207,7 @@ def tokens_merge(tokens1, tokens2):
             else:
                 break
         del opened[pos]
-        result.extend(reopen)
+        result.extend(reversed(reopen))
     assert not opened
     return normalize_tokens(result)
 
-- 
2.43.0


From 38cb0d8bf59436dc4010b570299bc9bcc1b75086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 30/65] fix: use default values of OpenRaster attributes that
 are not given

---
 elsie/render/ora.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index 1bd7297..d6263b6 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -62,20 +62,20 @@ def convert_ora_to_svg(filename):
 
 
 def _check_visibility(element):
-    return element.get("visibility") == "visible"
+    return element.get("visibility", "visible") == "visible"
 
 
 def _stack_to_svg(element, xml, sources):
     if not _check_visibility(element):
         return
     xml.element("g")
-    x, y = element.get("x"), element.get("y")
+    x, y = element.get("x", "0"), element.get("y", "0")
     if x != "0" or y != "0":
         xml.set("transform", "translate({}, {})".format(x, y))
-    opacity = float(element.get("opacity"))
+    opacity = float(element.get("opacity", 1))
     if opacity < 0.9999:
         xml.set("opacity", opacity)
-    xml.set("inkscape:label", element.get("name"))
+    xml.set("inkscape:label", element.get("name", ""))
     _children_to_svg(element, xml, sources)
     xml.close("g")
 
@@ -87,14 +87,14 @@ def _layer_to_svg(element, xml, sources):
     if source is None:
         return
     data, mime, x, y, image_width, image_height = source
-    extra_args = [("inkscape:label", element.get("name"))]
-    opacity = float(element.get("opacity"))
+    extra_args = [("inkscape:label", element.get("name", ""))]
+    opacity = float(element.get("opacity", 1))
     if opacity is not None and opacity < 0.9999:
         extra_args.append(("opacity", opacity))
     draw_bitmap(
         xml,
-        float(element.get("x")) + x,
-        float(element.get("y")) + y,
+        float(element.get("x", 0)) + x,
+        float(element.get("y", 0)) + y,
         image_width,
         image_height,
         mime,
-- 
2.43.0


From 921fde989e1885844fb43fb17b23633c8df8cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 31/65] fix: do not drop black pixels of OpenRaster layers
 without an alpha channel

---
 elsie/render/ora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/ora.py b/elsie/render/ora.py
index d6263b6..7d77c22 100644
--- a/elsie/render/ora.py
+++ b/elsie/render/ora.py
@@ -25,7 +25,7 @@ def convert_ora_to_svg(filename):
             if src is not None and src not in sources:
                 with archive.open(src) as f:
                     img = Image.open(f)
-                    box = img.getbbox()
+                    box = img.convert("RGBA").getbbox()
 
                     if box is None:
                         sources[src] = None
-- 
2.43.0


From afa86fc363aa8829f312de669f4d505f9affb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 32/65] fix: draw square corners if one of the corner radii is
 zero (SVG)

---
 elsie/render/backends/svg/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index c757baf..4aa4884 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -148,9 +148,9 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx:
+    if rx is not None:
         xml.set("rx", rx)
-    if ry:
+    if ry is not None:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From bfb8b16a52daca53bdd11f328618b3fd88edb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 33/65] fix: keep characters escaped by a backslash in Markdown

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 9047981..eb178ab 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,6 +1,13 @@
 import marko
 from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
-from marko.inline import Emphasis, LineBreak, Link, RawText, StrongEmphasis
+from marko.inline import (
+    Emphasis,
+    LineBreak,
+    Link,
+    Literal,
+    RawText,
+    StrongEmphasis,
+)
 
 from ..boxtree.box import Box
 from ..text.textparser import trim_indent
@@ -50,6 +57,9 @@ def get_raw_text(ctx: MarkdownContext, node) -> str:
     for child in node.children:
         if isinstance(child, RawText):
             text += child.children
+        elif isinstance(child, Literal):
+            # Character after a backslash, it does not start an inline style
+            text += child.children.replace(ctx.escape_char, 2 * ctx.escape_char)
         elif isinstance(child, Emphasis):
             text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_ITALIC_STYLE)
         elif isinstance(child, StrongEmphasis):
-- 
2.43.0


From 23a7a815d5cd54b73b4617de164f8bc166f24712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 34/65] fix: draw lists of Markdown quotes inside of the quotes

---
 elsie/ext/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index eb178ab..5e1dd50 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -111,7 +111,8 @@ def build_blank_line(ctx: MarkdownContext, blank_line: BlankLine):
 def build_quote(ctx: MarkdownContext, quote: Quote):
     container = ctx.box.sbox()
     container.update_style("default", container.get_style(MD_BLOCKQUOTE_STYLE))
-    parent_ctx = ctx.copy(box=container)
+    # A list in the quote is not a sublist of the list that contains the quote
+    parent_ctx = ctx.copy(box=container, active_list=None)
     for child in quote.children:
         build(parent_ctx, child)
 
-- 
2.43.0


From 0589d0dc0b754f631ebe1d5326c31aa53f543f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 35/65] fix: draw underlined headings of Markdown

---
 elsie/ext/markdown.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elsie/ext/markdown.py b/elsie/ext/markdown.py
index 5e1dd50..d5ee2db 100644
--- a/elsie/ext/markdown.py
+++ b/elsie/ext/markdown.py
@@ -1,5 +1,14 @@
 import marko
-from marko.block import BlankLine, FencedCode, Heading, List, ListItem, Paragraph, Quote
+from marko.block import (
+    BlankLine,
+    FencedCode,
+    Heading,
+    List,
+    ListItem,
+    Paragraph,
+    Quote,
+    SetextHeading,
+)
 from marko.inline import (
     Emphasis,
     LineBreak,
@@ -142,6 +151,7 @@ def build_list_top(ctx: MarkdownContext, list_node: List):
 
 MD_BUILD_FNS = {
     Heading: build_heading,
+    SetextHeading: build_heading,
     Paragraph: build_paragraph,
     BlankLine: build_blank_line,
     Quote: build_quote,
-- 
2.43.0


From 7f97e42e13a6daa4216b0c1a1c0e254c86f6630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 36/65] fix: apply the view box of a slide to SVG images
 (Cairo)

---
 elsie/render/backends/cairo/rcontext.py |  1 +
 elsie/render/backends/cairo/svg.py      | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 0f30bbc..d586853 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -257,4 +257,5 @@ class CairoRenderingContext(RenderingContext):
             height=height,
             rotation=rotation,
             dpi=self.cairosvg_dpi,
+            matrix=self.ctx.get_matrix(),
         )
diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index fb0663e..038b508 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -26,6 +26,7 @@ class CairoSurface(Surface):
         map_rgba=None,
         map_image=None,
         rotation=None,
+        matrix=None,
     ):
         self.surface = surface
         self.cairo = None
@@ -86,9 +87,13 @@ class CairoSurface(Surface):
 
         self.context = cairo.Context(self.cairo)
         # We must scale the context as the surface size is using physical units
-        self.context.scale(
-            self.device_units_per_user_units, self.device_units_per_user_units
-        )
+        if matrix is not None:
+            # Transformation of the slide, it also contains the scale below
+            self.context.set_matrix(matrix)
+        else:
+            self.context.scale(
+                self.device_units_per_user_units, self.device_units_per_user_units
+            )
         center = (x + width / 2, y + height / 2)
         transform(self.context, center, rotation=rotation)
         self.context.translate(x, y)
@@ -108,7 +113,15 @@ class CairoSurface(Surface):
 
 
 def render_svg(
-    surface: cairo.Surface, svg: str, x, y, width, height, rotation=None, dpi=96
+    surface: cairo.Surface,
+    svg: str,
+    x,
+    y,
+    width,
+    height,
+    rotation=None,
+    dpi=96,
+    matrix=None,
 ):
     tree = Tree(bytestring=svg.encode())
     instance = CairoSurface(
@@ -120,5 +133,6 @@ def render_svg(
         dpi=dpi,
         output_width=width,
         output_height=height,
+        matrix=matrix,
     )
     instance.draw(tree)
-- 
2.43.0


From 273c6a4af5f5f90049c9371c6ed7f96ff7305dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 37/65] fix: do not fail on ellipses in empty boxes (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index d586853..5390ca3 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -111,6 +111,9 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if rect.width <= 0 or rect.height <= 0:
+            return  # As in SVG, such an ellipse is not drawn
+
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
-- 
2.43.0


From 2535e1e758baa7d6649077edf8918f7e89856cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 38/65] fix: reflect the last control point in consecutive S
 commands of a path (Cairo)

---
 elsie/render/backends/cairo/shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index 0afe8ae..de58984 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -28,9 +28,10 @@ def draw_path(ctx: cairocffi.Context, commands):
             last_quadratic_cp = None
             ctx.curve_to(*args[0], *args[1], *args[2])
         elif name == "S":
-            last_cubic_cp = reflect(last_cubic_cp or location, location)
+            cp = reflect(last_cubic_cp or location, location)
+            last_cubic_cp = args[0]
             last_quadratic_cp = None
-            ctx.curve_to(*last_cubic_cp, *args[0], *args[1])
+            ctx.curve_to(*cp, *args[0], *args[1])
         elif name == "Q":
             last_cubic_cp = None
             last_quadratic_cp = args[0]
-- 
2.43.0


From e4924344a90391cc82b8f2ae4c0889f50a231621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 39/65] fix: join the first corner of polygons as the other
 ones (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 5390ca3..0687c6b 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -144,8 +144,9 @@ class CairoRenderingContext(RenderingContext):
 
             def draw():
                 self.ctx.move_to(*points[0])
-                for p in points[1:] + [points[0]]:
+                for p in points[1:]:
                     self.ctx.line_to(*p)
+                self.ctx.close_path()
 
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
-- 
2.43.0


From bee1f757fb07b61269c641241cb74738f630294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 40/65] fix: draw all points of path commands with repeated
 points (Cairo)

---
 elsie/render/backends/cairo/shapes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/shapes.py b/elsie/render/backends/cairo/shapes.py
index de58984..89e1ffb 100644
--- a/elsie/render/backends/cairo/shapes.py
+++ b/elsie/render/backends/cairo/shapes.py
@@ -1,5 +1,7 @@
 import cairocffi
 
+from ....shapes.path import COMMAND_NARGS
+
 
 def reflect(cp, anchor):
     """
@@ -10,10 +12,21 @@ def reflect(cp, anchor):
     return (anchor[0] + neg[0], anchor[1] + neg[1])
 
 
+def split_commands(commands):
+    """
+    A command with points for several commands is the same as these commands in a row
+    (as in SVG, a repeated "M" is "L").
+    """
+    for name, args in commands:
+        nargs = COMMAND_NARGS[name]
+        for i in range(0, len(args), nargs):
+            yield "L" if name == "M" and i > 0 else name, args[i : i + nargs]
+
+
 def draw_path(ctx: cairocffi.Context, commands):
     last_cubic_cp = None
     last_quadratic_cp = None
-    for name, args in commands:
+    for name, args in split_commands(commands):
         location = ctx.get_current_point()
         if name == "M":
             last_cubic_cp = None
-- 
2.43.0


From c7118537ae82851c2c07cda2eff5763c5d1c609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 41/65] fix: draw all round corners of a rectangle as arcs
 (Cairo)

---
 elsie/render/backends/cairo/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index ad6268e..06a1f61 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -21,11 +21,11 @@ def rounded_rectangle(ctx: cairo.Context, x, y, w, h, rx, ry):
     ctx.new_path()
     ctx.move_to(x + rx, y)
     ctx.rel_line_to(w - 2 * rx, 0.0)
-    ctx.rel_curve_to(c1, 0.0, rx, c2, rx, ry)
+    ctx.rel_curve_to(c1, 0.0, rx, ry - c2, rx, ry)
     ctx.rel_line_to(0, h - 2 * ry)
     ctx.rel_curve_to(0.0, c2, c1 - rx, ry, -rx, ry)
     ctx.rel_line_to(-w + 2 * rx, 0)
-    ctx.rel_curve_to(-c1, 0, -rx, -c2, -rx, -ry)
+    ctx.rel_curve_to(-c1, 0, -rx, c2 - ry, -rx, -ry)
     ctx.rel_line_to(0, -h + 2 * ry)
     ctx.rel_curve_to(0.0, -c2, rx - c1, -ry, rx, -ry)
     ctx.close_path()
-- 
2.43.0


From 92c06f26371e381924007507af15a43d925371ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 42/65] fix: do not connect ellipses with images and texts
 drawn before them (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 0687c6b..abd468e 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -123,6 +123,8 @@ class CairoRenderingContext(RenderingContext):
         center = rect.mid_point
 
         def draw():
+            # An arc would be connected to the point where an image or a text was drawn
+            self.ctx.new_path()
             self.ctx.arc(center[0], center[1], dim_larger / 2.0, 0, 2 * math.pi)
 
         with ctx_scope(self.ctx):
-- 
2.43.0


From f985af4bd20d10e6302a190cd9130cbba68d3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 43/65] fix: draw square corners for one zero radius in
 Inkscape as well (SVG)

---
 elsie/render/backends/svg/draw.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 4aa4884..f3c2cdf 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -148,9 +148,11 @@ def draw_rect(xml, rect: Rect, rx=None, ry=None, rotation=None, **kwargs):
     xml.set("y", rect.y)
     xml.set("width", rect.width)
     xml.set("height", rect.height)
-    if rx is not None:
+    if rx == 0 or ry == 0:
+        rx = ry = None  # Square corners; Inkscape takes a zero for a missing radius
+    if rx:
         xml.set("rx", rx)
-    if ry is not None:
+    if ry:
         xml.set("ry", ry)
     if rotation:
         apply_rotation(xml, rotation, rect.mid_point)
-- 
2.43.0


From 85e2fee4a36243d7643a7a43c5fa7f7dde70a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 44/65] fix: use the mitre limit of SVG for sharp corners
 (Cairo)

---
 elsie/render/backends/cairo/draw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elsie/render/backends/cairo/draw.py b/elsie/render/backends/cairo/draw.py
index 06a1f61..2526ed1 100644
--- a/elsie/render/backends/cairo/draw.py
+++ b/elsie/render/backends/cairo/draw.py
@@ -41,6 +41,7 @@ def stroke_shape(ctx, callback, color, stroke_width=None, stroke_dasharray=None)
     ctx.set_source_rgb(*get_rgb_color(color))
     stroke_width = stroke_width or 1
     ctx.set_line_width(stroke_width)
+    ctx.set_miter_limit(4)  # The default of SVG
     if stroke_dasharray:
         ctx.set_dash([float(v) for v in stroke_dasharray.split()])
     callback()
-- 
2.43.0


From 4be565ee29cb18b836dbf7f7c51988fc71bca6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 45/65] fix: do not reduce the height of text lines by the
 resolution (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 9 ++-------
 elsie/render/backends/cairo/text.py     | 7 +++----
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index abd468e..73a8efe 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -171,9 +171,7 @@ class CairoRenderingContext(RenderingContext):
             fill_stroke_shape(self.ctx, draw, **kwargs)
 
     def compute_text_extents(self, parsed_text, style: TextStyle, styles) -> Rect:
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, self.pctx, parsed_text, style, styles)
         return get_extents(layout)
 
     def compute_subtext_extents(
@@ -181,9 +179,7 @@ class CairoRenderingContext(RenderingContext):
     ) -> Rect:
         from ....text.textboxitem import text_x_in_rect
 
-        layout = build_layout(
-            self.ctx, self.pctx, parsed_text, style, styles, RESOLUTION_SCALE
-        )
+        layout = build_layout(self.ctx, self.pctx, parsed_text, style, styles)
         extents = get_extents(layout)
         start_x = text_x_in_rect(Rect(x=0, width=extents.width), style)
         x, width = compute_subtext_extents(layout, parsed_text, id_index)
@@ -209,7 +205,6 @@ class CairoRenderingContext(RenderingContext):
                 parsed_text,
                 style,
                 styles,
-                resolution_scale=RESOLUTION_SCALE,
                 spacing_scale=self.line_scaling,
                 text_scale=scale,
             )
diff --git a/elsie/render/backends/cairo/text.py b/elsie/render/backends/cairo/text.py
index a36cb6b..a39fdf3 100644
--- a/elsie/render/backends/cairo/text.py
+++ b/elsie/render/backends/cairo/text.py
@@ -114,7 +114,7 @@ def get_text_and_attributes(
     return text, attr_list
 
 
-def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale: float):
+def get_text_height(pctx: pangocffi.Context, style: TextStyle):
     font = FontDescription()
     font.set_family(style.font)
     font.set_absolute_size(to_pango_units(style.size))
@@ -124,7 +124,7 @@ def get_text_height(pctx: pangocffi.Context, style: TextStyle, resolution_scale:
 
     descent = from_pango_units(pangocffi.pango.pango_font_metrics_get_descent(ret))
     ascent = from_pango_units(pangocffi.pango.pango_font_metrics_get_ascent(ret))
-    return (ascent + descent) * resolution_scale
+    return ascent + descent
 
 
 def build_layout(
@@ -133,7 +133,6 @@ def build_layout(
     parsed_text,
     style: TextStyle,
     styles,
-    resolution_scale: float,
     spacing_scale: float = 1.0,
     text_scale: float = 1.0,
 ) -> pangocffi.Layout:
@@ -147,7 +146,7 @@ def build_layout(
     layout.set_text(text)
     layout.set_attributes(attributes)
 
-    height = get_text_height(pctx, style, resolution_scale)
+    height = get_text_height(pctx, style)
 
     assert style.line_spacing >= 1.0
     spacing = (style.line_spacing * style.size) - height
-- 
2.43.0


From ca331f74d06e3208cdd8a39c74c67200d2a700b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 46/65] fix: scale the line spacing of text as the text and not
 by the view box (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 73a8efe..51ce352 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -75,9 +75,8 @@ class CairoRenderingContext(RenderingContext):
         else:
             assert False
 
-        self.line_scaling = 1.0
         if viewbox:
-            self.line_scaling = apply_viewbox(self.ctx, width, height, viewbox)
+            apply_viewbox(self.ctx, width, height, viewbox)
 
         self.pctx = pangocairocffi.create_context(self.reference_ctx)
 
@@ -205,7 +204,7 @@ class CairoRenderingContext(RenderingContext):
                 parsed_text,
                 style,
                 styles,
-                spacing_scale=self.line_scaling,
+                spacing_scale=scale or 1.0,
                 text_scale=scale,
             )
             layout.set_width(to_pango_units(rect.width))
-- 
2.43.0


From 9d16427f0ebfa65c87b063c166f99dbb9a60b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 47/65] fix: draw bitmaps in SVG and OpenRaster images (Cairo)

---
 elsie/render/backends/cairo/svg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/svg.py b/elsie/render/backends/cairo/svg.py
index 038b508..26f6060 100644
--- a/elsie/render/backends/cairo/svg.py
+++ b/elsie/render/backends/cairo/svg.py
@@ -3,6 +3,7 @@ from cairosvg.colors import color
 from cairosvg.helpers import node_format, size
 from cairosvg.parser import Tree
 from cairosvg.surface import Surface
+from cairosvg.url import fetch
 
 from .draw import transform
 
@@ -123,7 +124,8 @@ def render_svg(
     dpi=96,
     matrix=None,
 ):
-    tree = Tree(bytestring=svg.encode())
+    # Without an explicit fetcher, CairoSVG ignores all images in the SVG
+    tree = Tree(bytestring=svg.encode(), url_fetcher=fetch)
     instance = CairoSurface(
         surface=surface,
         rotation=rotation,
-- 
2.43.0


From 7298478aeb007db1079912c77fafded41c90d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 48/65] fix: draw magnified bitmaps with opaque edges (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 51ce352..30e60a9 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -232,8 +232,10 @@ class CairoRenderingContext(RenderingContext):
         with ctx_scope(self.ctx):
             transform(self.ctx, center, rotation=rotation)
             self.ctx.set_source_surface(surface, x, y)
-            self.ctx.move_to(x, y)
-            self.ctx.paint()
+            # Interpolation must not mix the pixels at the edges with nothing
+            self.ctx.get_source().set_extend(cairo.EXTEND_PAD)
+            self.ctx.rectangle(x, y, width, height)
+            self.ctx.fill()
 
     def draw_svg(
         self,
-- 
2.43.0


From 5980e8c6c066fcfd2309378f7165a5c7a414b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 49/65] fix: do not wrap lines of text (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 30e60a9..907fb33 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -25,7 +25,6 @@ from .text import (
     compute_subtext_extents,
     from_pango_units,
     get_extents,
-    to_pango_units,
 )
 from .utils import normalize_svg
 
@@ -196,6 +195,8 @@ class CairoRenderingContext(RenderingContext):
         scale=None,
         **kwargs,
     ):
+        from ....text.textboxitem import text_x_in_rect
+
         # TODO: try basic Cairo text API
         with ctx_scope(self.ctx):
             layout = build_layout(
@@ -207,12 +208,14 @@ class CairoRenderingContext(RenderingContext):
                 spacing_scale=scale or 1.0,
                 text_scale=scale,
             )
-            layout.set_width(to_pango_units(rect.width))
+            # The layout has no width, it would wrap lines that are a bit wider
+            extents = get_extents(layout)
+            text_x = x - text_x_in_rect(Rect(x=extents.x, width=extents.width), style)
             baseline = from_pango_units(layout.get_baseline())
 
             if rotation is not None:
                 transform(self.ctx, rect.mid_point, rotation=rotation)
-            self.ctx.move_to(rect.x, y - baseline)
+            self.ctx.move_to(text_x, y - baseline)
             pangocairocffi.show_layout(self.ctx, layout)
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
-- 
2.43.0


From bd1349b6988c8ae92abdd9a0601ea388de187597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 50/65] fix: compute the ratio of an image from the inner area
 of its box, without padding

---
 elsie/boxtree/layout.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index 5142f2f..980ee72 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -221,7 +221,8 @@ class Layout:
             self.ensure_height(image_height)
             return
         minx, miny = self.min_children_size()
-        size_x = max(self._width.min_size, minx)
-        size_y = max(self._height.min_size, miny)
+        # The image is in the inner area, without padding
+        size_x = max(self._width.min_size - self.p_left - self.p_right, minx)
+        size_y = max(self._height.min_size - self.p_top - self.p_bottom, miny)
         self.ensure_width(size_y * image_width / image_height)
         self.ensure_height(size_x * image_height / image_width)
-- 
2.43.0


From b4a96d8066967ebe7f08364e604efcaa91c29ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 51/65] fix: accept inches and picas as units of SVG images

---
 elsie/render/backends/svg/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index 25b0507..7c7780e 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -34,6 +34,10 @@ def svg_size_to_pixels(text):
         factor = 37.7953
     elif suffix == "pt":
         factor = 1.33333
+    elif suffix == "in":
+        factor = 96.0
+    elif suffix == "pc":
+        factor = 16.0
     else:
         factor = 1.0
     return float(text) * factor
-- 
2.43.0


From 32e2b0101cf77c596931036e1f0921abc7cfa96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 52/65] fix: use the resolution of SVG for units in SVG images
 exported to PNG (Cairo)

---
 elsie/render/backends/cairo/rcontext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 907fb33..b770073 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -70,7 +70,7 @@ class CairoRenderingContext(RenderingContext):
             )
             self.reference_ctx = cairo.Context(reference_surface)
             self.reference_ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
-            self.cairosvg_dpi = CAIRO_DPI
+            self.cairosvg_dpi = TARGET_DPI
         else:
             assert False
 
-- 
2.43.0


From cddfe3415c13c656a6710661930ca46c42e18a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 53/65] fix: use UTF-8 for SVG and LaTeX files, whatever the
 locale is

---
 elsie/boxtree/boxmixin.py | 2 +-
 elsie/ext/latex.py        | 6 ++++--
 elsie/render/inkscape.py  | 4 +++-
 elsie/render/render.py    | 2 +-
 elsie/utils/cache.py      | 4 ++--
 elsie/utils/sxml.py       | 2 +-
 6 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index fdd47ea..01be13f 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -574,7 +574,7 @@ class BoxMixin:
 
             def constructor(_content, output, _data_type):
                 svg = convert_ora_to_svg(filename)
-                with open(output, "w") as f:
+                with open(output, "w", encoding="utf-8") as f:
                     f.write(svg)
 
             cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
diff --git a/elsie/ext/latex.py b/elsie/ext/latex.py
index 9487523..1efbbf6 100644
--- a/elsie/ext/latex.py
+++ b/elsie/ext/latex.py
@@ -87,7 +87,8 @@ def _render_latex(text):
     args = ("/usr/bin/pdflatex", "-interaction=batchmode", "content.tex")
 
     with TemporaryDirectory(prefix="elsie-") as wdir:
-        with open(os.path.join(wdir, "content.tex"), "w") as f:
+        tex_name = os.path.join(wdir, "content.tex")
+        with open(tex_name, "w", encoding="utf-8") as f:
             f.write(text)
 
         p = subprocess.Popen(
@@ -100,7 +101,8 @@ def _render_latex(text):
 
         _stdout, _stderr = p.communicate()
         if p.returncode != 0:
-            with open(os.path.join(wdir, "content.log")) as f:
+            log_name = os.path.join(wdir, "content.log")
+            with open(log_name, encoding="utf-8", errors="replace") as f:
                 error = f.read()
             raise Exception("pdflatex failed:\n" + error)
 
diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 3174f19..6a1a8f9 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -7,7 +7,9 @@ import tempfile
 
 @contextlib.contextmanager
 def svg_file_input(inkscape, svg: str, binary=False):
-    with tempfile.NamedTemporaryFile("wb" if binary else "w", suffix=".svg") as f:
+    # SVG without a declaration is in UTF-8, whatever the locale is
+    mode, encoding = ("wb", None) if binary else ("w", "utf-8")
+    with tempfile.NamedTemporaryFile(mode, encoding=encoding, suffix=".svg") as f:
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..cdcef72 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -34,7 +34,7 @@ class SvgRenderUnit(RenderUnit):
         svg_file = os.path.join(
             out_dir, "{}-{}.svg".format(self.slide.index, self.step)
         )
-        with open(svg_file, "w") as f:
+        with open(svg_file, "w", encoding="utf-8") as f:
             f.write(self.svg)
 
     def export(self, fs_cache, export_type):
diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 1e5f5a0..3f2443b 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -79,12 +79,12 @@ class FsCache:
         full_path = os.path.join(self.cache_dir, cache_file)
 
         if cache_file in self.cache_files and os.path.isfile(full_path):
-            with open(full_path, "r") as f:
+            with open(full_path, "r", encoding="utf-8") as f:
                 return f.read()
 
         result = constructor(input_data)
         tmp_path = self._full_path("tmp." + cache_file)
-        with open(tmp_path, "w") as f:
+        with open(tmp_path, "w", encoding="utf-8") as f:
             f.write(result)
         os.replace(tmp_path, full_path)
         self.cache_files.add(cache_file)
diff --git a/elsie/utils/sxml.py b/elsie/utils/sxml.py
index d2c93cf..5017cc7 100644
--- a/elsie/utils/sxml.py
+++ b/elsie/utils/sxml.py
@@ -54,7 +54,7 @@ class Xml:
 
     def write(self, filename):
         assert len(self.stack) == 0, "Empty stack"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             for chunk in self.chunks:
                 f.write(chunk)
 
-- 
2.43.0


From e7ca5915e54e509eaa6b3ce6b1f2532cdf29835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:14 +0000
Subject: [PATCH 54/65] fix: do not keep a file open for each page of a
 document

---
 elsie/render/backends/cairo/backend.py  | 2 ++
 elsie/render/backends/cairo/rcontext.py | 4 +++-
 elsie/render/pdfmerge.py                | 5 ++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index d5ab7de..dbec587 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -62,6 +62,8 @@ class CairoRenderUnit(RenderUnit):
     def export(self, fs_cache: FsCache, export_type: str):
         if export_type == "pdf":
             self.ctx.surface.finish()
+            with open(self.ctx.filename, "wb") as f:
+                f.write(self.ctx.pdf_data.getvalue())
             return self.ctx.filename
         elif export_type == "png":
             self.ctx.surface.flush()
diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index b770073..ac8d702 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -55,8 +55,10 @@ class CairoRenderingContext(RenderingContext):
         self.filename = filename
 
         if export_format == "pdf":
+            # Not written to the file directly, it would stay open until the export
+            self.pdf_data = io.BytesIO()
             self.surface = cairo.PDFSurface(
-                self.filename, self.device_width, self.device_height
+                self.pdf_data, self.device_width, self.device_height
             )
             self.reference_ctx = self.ctx = cairo.Context(self.surface)
             self.ctx.scale(RESOLUTION_SCALE, RESOLUTION_SCALE)
diff --git a/elsie/render/pdfmerge.py b/elsie/render/pdfmerge.py
index 34c0237..40142af 100644
--- a/elsie/render/pdfmerge.py
+++ b/elsie/render/pdfmerge.py
@@ -1,3 +1,4 @@
+import io
 import subprocess
 
 
@@ -32,7 +33,9 @@ class PyPdfMerger:
         self.inner = PdfFileMerger()
 
     def append(self, filename):
-        self.inner.append(filename)
+        # The merger reads its inputs when it writes, it would keep each file open
+        with open(filename, "rb") as f:
+            self.inner.append(io.BytesIO(f.read()))
 
     def write(self, output, debug):
         with open(output, "wb") as f:
-- 
2.43.0


From 1b98a63129599da1103ed313772dd6fe04ec0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 55/65] fix: read Inkscape's messages whatever their encoding
 is

A message which is not in the encoding of the locale raised UnicodeDecodeError
in the middle of a dialogue.
---
 elsie/render/inkscape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 6a1a8f9..237ed7a 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -2,6 +2,7 @@ import contextlib
 import logging
 import os
 import subprocess
+import sys
 import tempfile
 
 
@@ -26,6 +27,9 @@ class InkscapeShell:
             stdin=subprocess.PIPE,
             stderr=subprocess.DEVNULL,  # nobody reads it and a full pipe would block Inkscape
             universal_newlines=True,
+            # file names and messages of Inkscape need not be in the encoding of the locale
+            encoding=sys.getfilesystemencoding(),
+            errors="surrogateescape",
         )
         self.wait_for_prompt()
 
-- 
2.43.0


From 42494316fb887460a0cb2b39dfae12683357acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 56/65] fix: point the arrow of a path that ends with T along
 the path

The direction of its end is given by the reflected control point of the
previous command and not by the previous point.
---
 elsie/shapes/path.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/elsie/shapes/path.py b/elsie/shapes/path.py
index 701f7a1..74fa3c4 100644
--- a/elsie/shapes/path.py
+++ b/elsie/shapes/path.py
@@ -32,6 +32,20 @@ def eval_path_commands(commands):
     return result
 
 
+def path_smooth_control_point(commands):
+    """Control point of the last 'T', i.e. the reflection of the previous one."""
+    current = control = None
+    for name, pairs in commands:
+        for i, point in enumerate(pairs):
+            if name == "T" and current is not None:
+                control = (2 * current[0] - control[0], 2 * current[1] - control[1])
+            else:
+                # only the control point of a quadratic curve is reflected
+                control = pairs[i - 1] if name == "Q" and i else point
+            current = point
+    return control
+
+
 def path_points_for_end_arrow(commands):
     name, pairs = commands[-1]
     if name not in "CSQT":
@@ -39,6 +53,8 @@ def path_points_for_end_arrow(commands):
             "Current version supports path when last command is 'C', 'S', 'Q' ot 'T' "
             "(got '{}')".format(name)
         )
+    if name == "T" and len(commands) >= 2:
+        return path_smooth_control_point(commands), pairs[-1]
     if len(pairs) >= 2:
         return pairs[-2], pairs[-1]
     if len(commands) >= 2:
-- 
2.43.0


From c552ec9e40bec4bf3d8b64a9bb09afac2c3b0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 57/65] fix: draw images as their files are when they are added

The content of an image was looked up by the name of its file, an image
whose file had changed (or another one of the same relative name) while the
deck was open was drawn as before.
---
 elsie/boxtree/boxmixin.py | 48 +++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 01be13f..92aa390 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -514,27 +514,23 @@ class BoxMixin:
             raise Exception("Unknown image type: {}".format(image_type))
 
     def _image_bitmap(self, source, scale: float, rotation: float):
-        if isinstance(source, str) or isinstance(source, bytes):
-            key = (source, "bitmap")
-            entry = self._get_box().slide.temp_cache.get(key)
-        else:
-            key = None
-            entry = None
+        # The key is the content, a file may change while the deck is open
+        data = read_helper(source)
+        key = (data, "bitmap")
+        entry = self._get_box().slide.temp_cache.get(key)
 
         if entry is None:
-            data = read_helper(source)
             img = Image.open(io.BytesIO(data))
             mime = Image.MIME[img.format]
             image_width, image_height = img.size
             del img
 
-            if key is not None:
-                self._get_box().slide.temp_cache[key] = (
-                    image_width,
-                    image_height,
-                    mime,
-                    data,
-                )
+            self._get_box().slide.temp_cache[key] = (
+                image_width,
+                image_height,
+                mime,
+                data,
+            )
         else:
             image_width, image_height, mime, data = entry
 
@@ -568,19 +564,15 @@ class BoxMixin:
     def _image_ora(
         self, filename, scale, fragments, show_begin, select_fragments, rotation
     ):
-        key = (filename, "svg")
-        slide = self._get_box().slide
-        if key not in slide.temp_cache:
-
-            def constructor(_content, output, _data_type):
-                svg = convert_ora_to_svg(filename)
-                with open(output, "w", encoding="utf-8") as f:
-                    f.write(svg)
+        def constructor(_content, output, _data_type):
+            svg = convert_ora_to_svg(filename)
+            with open(output, "w", encoding="utf-8") as f:
+                f.write(svg)
 
-            cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
-            self._get_box().slide.temp_cache[key] = et.parse(cache_file).getroot()
+        fs_cache = self._get_box().slide.fs_cache
+        cache_file = fs_cache.ensure_by_file(filename, "svg", constructor)
         return self._image_svg(
-            filename, scale, fragments, show_begin, select_fragments, rotation
+            cache_file, scale, fragments, show_begin, select_fragments, rotation
         )
 
     def _image_svg(
@@ -592,10 +584,12 @@ class BoxMixin:
         select_fragments: List[int] = None,
         rotation: float = None,
     ):
-        key = (filename, "svg")
+        # The key is the content, a file may change while the deck is open
+        content = read_helper(filename)
+        key = (content, "svg")
         root = self._get_box().slide.temp_cache.get(key)
         if root is None:
-            root = et.parse(filename).getroot()
+            root = et.fromstring(content)
             self._get_box().slide.temp_cache[key] = root
 
         image_width = svg_size_to_pixels(root.get("width"))
-- 
2.43.0


From c97348932c8bd1a0680947ad4d804335ad764636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 58/65] fix: files made by several threads at the same time

A thread that asked for a file while another one was about to make it
made it too, and one of them failed with KeyError.
---
 elsie/utils/cache.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 3f2443b..f0875f3 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -49,9 +49,8 @@ class FsCache:
                 return full_path
             if cache_file in self.cache_files and os.path.isfile(full_path):
                 return full_path
-
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
         # The file gets its name only when it is complete
         tmp_path = self._full_path("tmp." + cache_file)
         try:
-- 
2.43.0


From fb961e099c92960e5234feb937982689d94c263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 59/65] fix: give ids of different SVG images of a deck
 different names

Images are drawn into one document; where two of them had the same id,
the references of the second one led to the elements of the first one.
---
 elsie/boxtree/boxmixin.py          |  7 +++++--
 elsie/render/backends/svg/utils.py | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 92aa390..5d9bef1 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, BinaryIO, List, Union
 import lxml.etree as et
 from PIL import Image
 
-from ..render.backends.svg.utils import svg_size_to_pixels
+from ..render.backends.svg.utils import make_ids_unique, svg_size_to_pixels
 from ..render.image import create_image_data, get_image_steps, has_fragments
 from ..render.ora import convert_ora_to_svg
 from ..shapes import arrow
@@ -590,7 +590,10 @@ class BoxMixin:
         root = self._get_box().slide.temp_cache.get(key)
         if root is None:
             root = et.fromstring(content)
-            self._get_box().slide.temp_cache[key] = root
+            cache = self._get_box().slide.temp_cache
+            # Images are drawn into one document
+            make_ids_unique(root, cache.setdefault("svg-ids", set()))
+            cache[key] = root
 
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
diff --git a/elsie/render/backends/svg/utils.py b/elsie/render/backends/svg/utils.py
index 7c7780e..cd1169d 100644
--- a/elsie/render/backends/svg/utils.py
+++ b/elsie/render/backends/svg/utils.py
@@ -58,6 +58,27 @@ def rename_ids(root, suffix):
         for name, value in e.attrib.items():
             if "#" in value:
                 e.set(name, re.sub(r"#[^\s#()'\",;]+", rename, value))
+    for e in root.iter("{*}style"):
+        if e.text:
+            e.text = re.sub(r"#[\w-]+", rename, e.text)
+
+
+def make_ids_unique(root, used_ids):
+    """
+    Renames ids in `root` if some of them are already used by another image,
+    which would be drawn on the same page.
+    """
+
+    def get_ids():
+        return {e.get("id") for e in root.iter() if e.get("id")}
+
+    ids = get_ids()
+    count = 1
+    while not ids.isdisjoint(used_ids):
+        count += 1
+        rename_ids(root, f"-{count}")
+        ids = get_ids()
+    used_ids.update(ids)
 
 
 def apply_rotation(xml: "Xml", rotation: float, center: Tuple[float, float]):
-- 
2.43.0


From 87933cb8b112fede093de3cd362554ac5dea44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 60/65] fix: apply variant_numeric of inline styles

---
 elsie/render/backends/svg/draw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index f3c2cdf..a4c1277 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -88,6 +88,8 @@ def draw_text(
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
                 if s is not None:
+                    if j > 0 and s.variant_numeric:
+                        xml.set("font-variant-numeric", s.variant_numeric)
                     set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
@@ -105,6 +107,8 @@ def draw_text(
                 xml.set("id", id)
             xml.set("xml:space", "preserve")
             if s:
+                if s.variant_numeric:
+                    xml.set("font-variant-numeric", s.variant_numeric)
                 set_font_from_style(xml, s)
         elif token_type == "end":
             xml.close("tspan")
-- 
2.43.0


From 96493da64d1f8f1e4ad13e7a32968ab7057a2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 61/65] fix: spelling of proportional-nums, the misspelled
 value had no effect

---
 docs/userguide/text.md  | 2 +-
 elsie/text/textstyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/userguide/text.md b/docs/userguide/text.md
index c68fabe..e39ac3a 100644
--- a/docs/userguide/text.md
+++ b/docs/userguide/text.md
@@ -33,7 +33,7 @@ parameters:
     - `"slashed-zero"`
     - `"lining-nums"`
     - `"oldstyle-nums"`
-    - `"proportinal-nums"`
+    - `"proportional-nums"`
     - `"tabular-nums"`
     - `"diagonal-fractions"` 
     - `"stacked-fractions"`
diff --git a/elsie/text/textstyle.py b/elsie/text/textstyle.py
index ce9e24b..59d75a4 100644
--- a/elsie/text/textstyle.py
+++ b/elsie/text/textstyle.py
@@ -58,7 +58,7 @@ class TextStyle:
         "slashed-zero",
         "lining-nums",
         "oldstyle-nums",
-        "proportinal-nums",
+        "proportional-nums",
         "tabular-nums",
         "diagonal-fractions",
         "stacked-fractions",
-- 
2.43.0


From cbc70583af8a982ccd9d65ddc8dcd14d38d4f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 62/65] fix: slides have distinct indices after a slide was
 replaced

---
 elsie/slides/slidedeck.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index a2497ee..444cb79 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -257,6 +257,8 @@ class SlideDeck(StyleContainer):
                 raise Exception("Slide with name '{}' already exists".format(name))
             elif self.name_policy == "replace":
                 self._slides.remove(slide)
+                for i, s in enumerate(self._slides):
+                    s.index = i
             else:
                 assert 0
 
-- 
2.43.0


From 89f24752086ef8a49b1a50d56cec0fa951561d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 63/65] fix: blank lines in indented Elsie blocks of the
 documentation

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index b486023..98c1626 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -70,7 +70,9 @@ class CodeContext:
 
 
 def trim_indent(lines):
-    min_indent = min(len(line) - len(line.lstrip()) for line in lines)
+    min_indent = min(
+        (len(line) - len(line.lstrip()) for line in lines if line.strip()), default=0
+    )
     return [line[min_indent:] for line in lines]
 
 
-- 
2.43.0


From cb769b29bfe2144590598a90a238cd77989a53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 64/65] fix: indented Elsie blocks of the documentation

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index 98c1626..0b62f1d 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -34,7 +34,7 @@ def is_fence_delimiter(line):
 
 
 def get_fence_char(header):
-    return "`" if header[0] == "`" else "~"
+    return "`" if header.strip()[0] == "`" else "~"
 
 
 def parse_fence_header(header):
-- 
2.43.0


From 04cf73b5a6e9b3844481acbb37b243fdfc05d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:50 +0000
Subject: [PATCH 65/65] fix: keep a block of the documentation that is not
 closed

---
 docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
index 0b62f1d..23304f1 100644
--- a/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
+++ b/docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py
@@ -164,6 +164,11 @@ def iterate_fences(src: str, handle_fence):
         else:
             lines.append(line)
 
+    if inside_fence:
+        # The block lasts until the end of the page
+        lines.append(fence_header)
+        lines += fence_content
+
     return "\n".join(lines)
 
 
-- 
2.43.0

