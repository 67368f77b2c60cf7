From 08d7d17ed8fe086c2c0b771fc9d93a7b4c72677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 01/90] fix: augmented assignment (node += nodes) sets the
 parent of the added nodes

---
 quickly/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..64da98c 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -327,6 +327,11 @@ class Node(Common, list):
         for node in self[index:]:
             node._parent = weakref.ref(self)
 
+    def __iadd__(self, nodes):
+        """Append nodes to this node; the parent is set to this node."""
+        self.extend(nodes)
+        return self
+
     def insert(self, index, node):
         """Insert node in this node; the parent is set to this node."""
         node._parent = weakref.ref(self)
-- 
2.43.0


From 4ca6c1b56f11cb7a58a26f0ca7fe66f3fffb69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 02/90] fix: Range.copy() gives the copy boundary trails of its
 own

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 64da98c..a593cb3 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -773,7 +773,9 @@ class Range(Common):
 
     def copy(self):
         """Return a clean copy of this Range, initialized at the same ancestor."""
-        return type(self)(self.ancestor(), self.start_trail, self.end_trail)
+        start_trail = None if self.start_trail is None else list(self.start_trail)
+        end_trail = None if self.end_trail is None else list(self.end_trail)
+        return type(self)(self.ancestor(), start_trail, end_trail)
 
     def from_here(self):
         """Return a new Range, starting at the current :attr:`node`.
-- 
2.43.0


From c69889386f43ca561332bbc3f4bb21568bceade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 03/90] fix: copied elements keep their individually set
 spacing

---
 quickly/dom/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..c62a28f 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,10 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _spacing(self):
+        """Return a dictionary with the space attributes that are set on this node."""
+        return {'space_' + name: value for name, value in getattr(self, '_space', {}).items()}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +187,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +197,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
@@ -920,11 +924,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From d1de9c5cbccd1be2092317980fa891dcadb58859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 04/90] fix: Note.to_pitch() took the child nodes away from the
 note

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..7497dda 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1491,7 +1491,7 @@ class Note(Pitchable, Durable):
         ``\transpose``, etc.
 
         """
-        p = Pitch(self.head, *self)
+        p = Pitch(self.head, *(n.copy_with_origin() for n in self))
         p.copy_origin_from(self)
         return p
 
-- 
2.43.0


From bc38ecf66551ea061475ef3929e4d4bec27da515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 05/90] fix: Edit.edit_cursor lets go of the document when the
 edit fails

---
 quickly/dom/edit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..b6f6f7b 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -124,10 +124,12 @@ class Edit:
             r = Range(d)
         self._document = cursor.document()
         self._changes = 0
-        result = self.edit_range(r)
-        if not self.readonly:
-            self._changes = r.ancestor().edit(cursor.document(), start=start, end=end)
-        self._document = None
+        try:
+            result = self.edit_range(r)
+            if not self.readonly:
+                self._changes = r.ancestor().edit(cursor.document(), start=start, end=end)
+        finally:
+            self._document = None
         return result
 
     def edit_document(self, document):
-- 
2.43.0


From 5638e4bc3ccf90771bd03dabd007b17741f1794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 06/90] fix: \score lost the origin of its closing brace

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..2f195e9 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -103,8 +103,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From f47095daf940d0f56b1082100cd27caec5051470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 07/90] fix: unclosed lilypond tag in html crashed the
 transform

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2f195e9..ef6f375 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -330,12 +330,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 08d47807be02e8d0169014460a31d3690ea85708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 08/90] fix: lilypond environment with only options crashed the
 transform

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ef6f375..68d7a81 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -363,7 +363,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items and items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 0690eee3a62c62e1be7b3e8cb7418e804b25f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 09/90] fix: incomplete options of a lilypond command crashed
 the transform

---
 quickly/lang/latex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..6779e22 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -110,7 +110,10 @@ class LatexTransform(base.Transform):
             try:
                 i = items.index(']', pos)
             except ValueError:
-                nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                if head_origin:
+                    nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                else:
+                    nodes.append((self.common(items[pos:]), ()))
                 break
             tail_origin = items[i],
             if head_origin:
-- 
2.43.0


From baf1a4996b28430adb7a438070f509b643e4759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 10/90] fix: the opening quote of an unclosed html string was
 also taken as its tail

---
 quickly/lang/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..caa17fb 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -138,14 +138,14 @@ class HtmlTransform(base.Transform):
     def dqstring(self, items):
         """Process the ``dqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == '"' else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == '"' else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.DqString, head_origin, tail_origin, *children)
 
     def sqstring(self, items):
         """Process the ``sqstring`` context."""
         head_origin = items[0],
-        tail_origin = (items.pop(),) if items[-1] == "'" else ()
+        tail_origin = (items.pop(),) if len(items) > 1 and items[-1] == "'" else ()
         children = (self._action(t.action, t) for t in items[1:])
         return self.factory(htm.SqString, head_origin, tail_origin, *children)
 
-- 
2.43.0


From 3ce50654429f4a14b645c9bdf83817d1442ab143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 11/90] fix: a natural sign in figure mode crashed the
 transform

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7497dda..9dd9f20 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2503,13 +2503,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From 9bdf2427be3d61b6e96c6c30139c639a7abf18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 12/90] fix: braces inside latex math crashed the transform

---
 quickly/lang/latex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 6779e22..cfc70d4 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -173,8 +173,10 @@ class LatexTransform(base.Transform):
         tex.MathDisplayDollar)
 
     def math(self, items):
-        """Process the ``math`` context; return a Math node."""
+        """Process the ``math`` context; return a Math node (or a nested Brace)."""
         head = items[:1]
+        if head[0] == '{':
+            return self.brace(items)
         cls = self._math_mapping[head[0].text]
         tail = (items.pop(),) if len(items) > 1 and items[-1] == cls.tail else ()
         return self.factory(cls, head, tail, *self.common(items[1:]))
-- 
2.43.0


From 106deac07479c092acaef153eb5826b394690b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 13/90] fix: durations were added to cached chords and figures
 again and again

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 68d7a81..9dfef31 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1152,7 +1152,7 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        self._music = obj.copy_with_origin()    # obj is cached, and we'll add to it
 
     @_context("script")
     def script(self, obj):
-- 
2.43.0


From 842b3783e5d852763802abf12ab49959831044a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 14/90] fix: chord modifier without chord crashed the transform

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 9dfef31..231465b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1124,7 +1124,8 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if self._modifier:
+            self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From fdc9a6d828b1e8090540532c6062e969a967a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 15/90] fix: accidentals were added to cached figure brackets
 again and again

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 231465b..d06b0f1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -518,7 +518,7 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                step = i.obj.copy_with_origin() # obj is cached, and we may add to it
         if step:
             yield step
 
-- 
2.43.0


From d4dd3daed4b50770d4659af7b90da1bf1862067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 16/90] fix: an assignment took the nodes away from a cached
 list

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index d06b0f1..dfa5bc6 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -411,7 +411,8 @@ class LilyPondTransform(base.Transform):
                             # gotcha!!
                             first, *rest = variable
                             if isinstance(first, lily.List):
-                                identifier = lily.Identifier(*first)
+                                # the list is cached, don't take its nodes away
+                                identifier = lily.Identifier(*(n.copy_with_origin() for n in first))
                             else:
                                 identifier = lily.Identifier(first)
                             yield lily.Assignment(identifier, *rest)
-- 
2.43.0


From 3386829952380b05308402f98b4b42ae573be53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 17/90] fix: undefined names in markup helpers

---
 quickly/dom/markup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..5506f89 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From 7a17c2b15713908a1915bd282a260a3be66bf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 18/90] fix: with_link markup helper created with-color command

---
 quickly/dom/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 5506f89..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
-- 
2.43.0


From 0c76e166027dd00d2ff4a8574a534e93448bb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 19/90] fix: KeySignature.__repr__ created Pitch without octave

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..3ee014c 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(-1, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From 803fa83a71b4d632912a93823726848e14e69cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 20/90] fix: Adding and subtracting Transposers

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..433447e 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -89,6 +89,7 @@ class Transposer(AbstractTransposer):
 
     def __add__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps + other.steps, 7)
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
@@ -96,9 +97,10 @@ class Transposer(AbstractTransposer):
 
     def __sub__(self, other):
         t = type(self).__new__(type(self))
+        t.scale = self.scale
         doct, t.steps = divmod(self.steps - other.steps, 7)
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From 3b7c8b546bd9761d4caad62c06415231aa54825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 21/90] fix: Abs2rel: notes in a chord are relative to the
 previous note in the chord

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..7e50a1f 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -249,7 +249,7 @@ class Abs2rel(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
                     for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                        stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-- 
2.43.0


From e01192627b38f3166d155b4326d6e2b481b7f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 22/90] fix: Include.language: cope with missing filename

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 9dd9f20..0394e0d 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2829,7 +2829,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
-- 
2.43.0


From ffd8e8648d9dd7f628bfa442a8a2584ffa3582a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 23/90] fix: create_value_from_element: Scheme nodes have their
 value in the head

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0394e0d..c66f666 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3449,7 +3449,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 9dc98d829798ce5306e0eddc43f15cf06f0209e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 24/90] fix: IdentifierRef.with_name: head argument is required

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c66f666..bf206f9 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1092,7 +1092,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From 11cdc5fb8bd6e12ecf37b1c713e351acfe52ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 25/90] fix: Reference.get_value: hand down wait argument

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index bf206f9..055fa32 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -420,7 +420,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From 1a317c84221e1c227c56e10da7cd3c3f89fd526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 26/90] fix: TimeContext.remote_length: cope with undefined
 variables

---
 quickly/time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..8d8c160 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -352,9 +352,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 2ad2e63f27765b5fe1805a1fe88301d3b793d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 27/90] fix: Key.key_signature: cope with undefined variables

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 055fa32..8a5ba3e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2160,8 +2160,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From f2ad8f2d6caf8812dbed762eedc1338b6d2b4dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 28/90] fix: Pitch language: ignore unknown language names

---
 quickly/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..6a7e92d 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -472,7 +472,7 @@ class PitchProcessor:
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 23ce5f9a8849a5a49e13445bafe9463ca18a600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 29/90] fix: PitchProcessor.prefer_classic was inverted in
 norsk

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 6a7e92d..ec3bcc7 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -612,7 +612,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic != ('ee' in name or 'ae' in name):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 29c64a5c117b1109afee4d0c5bfd47199412b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 30/90] fix: Rel2abs: iterate safely over nodes that are
 changed

---
 quickly/relative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 7e50a1f..d680e0a 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -66,12 +66,12 @@ class Rel2abs(edit.Edit):
 
         def notes(nodes):
             """Yield note/rest, chord and octavecheck; follow pitch language."""
-            for n in processor.follow_language(nodes):
+            for n in processor.follow_language(list(nodes)):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    for m in list(n.instances_of(lily.Relative)):
+                        make_absolute(m)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
-- 
2.43.0


From 5d46e43f3e3ca32961b0ddf2e1f35ba44dc9325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 31/90] fix: Abs2rel: follow language changes outside the music

---
 quickly/relative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index d680e0a..8f0cf3d 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -192,7 +192,9 @@ class Abs2rel(edit.Edit):
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            nodes = r.instances_of((
+                lily.Language, lily.Include, lily.MusicList, lily.Relative, lily.ChordMode))
+            for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
-- 
2.43.0


From ed740a54caf00551e0b90606cf8594c28f33f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 32/90] fix: CopyRhythm: a skip does not set the previous
 duration

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..d12bdfd 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -261,11 +261,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From 6586dac738b0dbf567e47782c24a48ddb8181d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 33/90] fix: Time.cursor_position: cope with no node right of
 the cursor

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index 8d8c160..ed611eb 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -247,7 +247,7 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
+            c = node and self._music_child(node)
             if c:
                 return self.position(c)
 
-- 
2.43.0


From 8198aa220fcb016c82ecd6f7ae10b64abb7f42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 34/90] fix: add_newlines: cope with empty origins

---
 quickly/dom/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..d0810b2 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -113,7 +113,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(head_origin[0].pos)
+            s = get_newlines(head_origin[0].pos) if head_origin else ''
             if s and whitespace_key(s) > whitespace_key(node.space_before):
                 node.space_before = s
 
@@ -125,7 +125,7 @@ def add_newlines(node, text, block_separator='\n', max_blank_lines=10):
         except AttributeError:
             pass
         else:
-            s = get_newlines(tail_origin[0].pos)
+            s = get_newlines(tail_origin[0].pos) if tail_origin else ''
             if s and whitespace_key(s) > whitespace_key(node.space_before_tail):
                 node.space_before_tail = s
 
-- 
2.43.0


From 2c2e5871b325180f7ec5b0a256bf434dc2beb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 35/90] fix: CData: read and write correctly

---
 quickly/dom/htm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..43b25fb 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,12 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        return ''.join(t.text for t in origin if t != ']]>')
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]]]><![CDATA[>')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
-- 
2.43.0


From 2b38b1ce53c7c10e624b8d5a63786ab18f129ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 36/90] fix: htm.Element.to_plaintext: hand down the entity
 resolver

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 43b25fb..d9a669e 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From f402e06e99e5e31aaa7b514ac3ec90aaaf863b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 37/90] fix: HandleDuration.scaling: remove all superfluous
 scalings

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 8a5ba3e..c14ba30 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -148,7 +148,7 @@ class HandleDuration(element.Element):
     @scaling.setter
     def scaling(self, value):
         for d in self / Duration:
-            scaling = d / DurationScaling
+            scaling = iter(list(d / DurationScaling))
             for s in scaling:
                 if value in (1, None):
                     d.remove(s)
-- 
2.43.0


From 4845bb7f29e012c6e1440811d057867cc00b5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 38/90] fix: Pitchable.octave: remove the octave node when set
 to 0, as documented

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index c14ba30..f57037c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -242,7 +242,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
-- 
2.43.0


From 51af898106a08ab1d583175904c96afe6ae4434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 39/90] fix: Indenter.output_tail: end all levels

---
 quickly/dom/indent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..23afe0b 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -258,7 +258,7 @@ class Indenter:
         """*(Internal.)* Output the tail text."""
         self.output_space()
         if self._can_dedent and self._dedenters:
-            del self._indent_stack[self._dedenters]
+            del self._indent_stack[self._dedenters:]
             self._dedenters = 0
             self._output[-1].indent = self.current_indent()
         self._output[-1].line.append(text)
-- 
2.43.0


From ea0fbe619209f8cac673760e2d34ac63e3273b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 40/90] fix: Time.duration() applied a transform twice when the
 trails part directly below it

---
 quickly/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/time.py b/quickly/time.py
index ed611eb..5cc8204 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -221,9 +221,9 @@ class Time:
         # common part, just follow transform
         index = -1
         for index, (pos, end) in enumerate(zip(start_trail, end_trail)):
-            context = context.enter(node)
             if pos != end:
                 break
+            context = context.enter(node)
             node = node[pos]
         else:
             index += 1
-- 
2.43.0


From d72e46c0a88f6528958b6fa76430a92791b1ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 41/90] fix: incremental LilyPond transform: copy the cached
 elements that are flattened into the music

---
 quickly/lang/lilypond.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index dfa5bc6..ac3e923 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1132,7 +1132,9 @@ class MusicBuilder:
               "chordmode", "figuremode")
     def flatten_elements(self, obj):
         """Called for context that yield lists of Elements; flatten them."""
-        yield from obj
+        # obj is cached, and arguments or comments may be added to the nodes
+        for node in obj:
+            yield node.copy_with_origin()
 
     @_context("pitch")
     def pitch(self, obj):
-- 
2.43.0


From e546f8b013a290717b4c34379ac5d1d7194a9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 42/90] fix: incremental LilyPond transform: copy cached
 numbers before a comment is added to them

---
 quickly/lang/lilypond.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index ac3e923..2ece887 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -385,7 +385,8 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                # obj is cached, and comments may be added to it
+                yield i.obj.copy_with_origin()
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -1171,9 +1172,9 @@ class MusicBuilder:
             if not self.add_event_argument(obj):
                 self.add_articulation(obj)
         else:
-            # toplevel expression
+            # toplevel expression (a number may get a comment added; obj is cached)
             yield from self.pending_music()
-            yield obj
+            yield obj.copy_with_origin()
 
     @_context("markup")
     def markup(self, obj):
-- 
2.43.0


From af6014fa8f6e557e9adbe09c2d983f8d31d0067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 43/90] fix: incremental LilyPond transform: do not take
 comments out of cached articulations

---
 quickly/lang/lilypond.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2ece887..f01bceb 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1167,14 +1167,15 @@ class MusicBuilder:
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
         """Called for ``string``, ``scheme`` or ``list`` context."""
+        obj = obj.copy_with_origin()    # obj is cached, and comments may be added or taken away
         if self._events:
             # after a direction: an articulation
             if not self.add_event_argument(obj):
                 self.add_articulation(obj)
         else:
-            # toplevel expression (a number may get a comment added; obj is cached)
+            # toplevel expression
             yield from self.pending_music()
-            yield obj.copy_with_origin()
+            yield obj
 
     @_context("markup")
     def markup(self, obj):
@@ -1191,6 +1192,7 @@ class MusicBuilder:
     @_context("identifier_ref")
     def identifier_ref(self, obj):
         """Called for ``identifier_ref`` context: maybe articulation."""
+        obj = obj.copy_with_origin()    # obj is cached, and comments may be taken away
         if self._events:
             # after a direction: add as articulation
             self.add_articulation(obj)
-- 
2.43.0


From c4edd8662670d0f389c173535b819db99b16d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 44/90] fix: LaTeX: an option after whitespace in a lilypond
 environment made the transform fail

---
 quickly/lang/latex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index cfc70d4..257dee2 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -97,6 +97,9 @@ class LatexTransform(base.Transform):
         if items.peek(-1, a.Delimiter.Brace):
             # opening bracket of short form LilyPond command
             command_head = (items.pop(),)
+        if len(items) > 1 and items[1] == '[' and items[0].is_token and items[0].text.isspace():
+            # whitespace before the opening bracket
+            del items[0]
         i = 0
         if items.peek(0, a.Delimiter.Bracket) and items[0].text == '[':
             # complete first Option node
-- 
2.43.0


From 94ef04e511abdca3b3f6ceb76fa9dcb21525838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 45/90] fix: LaTeX: a brace after \\begin without environment
 name got lost

---
 quickly/lang/latex.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 257dee2..07b88de 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -258,13 +258,12 @@ class LatexTransform(base.Transform):
             if i < z and not items[i].is_token:
                 if items[i].name in ('environment', 'environment_math'):
                     env.extend(items[i].obj)
+                    i += 1
                 elif items[i].name == 'latex_lilypond_environment':
                     options, music, tail = items[i].obj
                     env[-1].extend(options)
                     env.extend(music)
-                else:
-                    print("unknown Latex environment:", items[i].name) #TEMP
-                i += 1
+                    i += 1
             return env
 
         while i < z:
-- 
2.43.0


From 1a94263ad70550966c3ced5a8fbfec69d7a17cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 46/90] fix: LaTeX: the contents of an environment with an
 empty name got lost

---
 quickly/dom/tex.py    | 1 +
 quickly/lang/latex.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..3e71017 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -130,6 +130,7 @@ class EnvironmentName(element.TextElement):
         for t in origin:
             if t.text not in "{}":
                 return t.text
+        return ""
 
     def write_head(self):
         return '{' + self.head + '}'
diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 07b88de..41cb51b 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -247,6 +247,10 @@ class LatexTransform(base.Transform):
                 # no options, add the name
                 env[-1].append(self.factory(tex.EnvironmentName, items[i:i+3]))
                 i += 3
+            elif items.peek(i, a.Delimiter, a.Delimiter) and items[i] == '{' and items[i+1] == '}':
+                # no options, empty name
+                env[-1].append(self.factory(tex.EnvironmentName, items[i:i+2]))
+                i += 2
             elif items.peek(i, a.Delimiter.Bracket, "environment_option"):
                 # environment options
                 options, env_name = items[i+1].obj
-- 
2.43.0


From ccba7a4df54a9823eae6376fa28437553e8c506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 47/90] fix: comments after a rest, chord or octave check
 without duration got lost

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index f01bceb..aca30ab 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -746,7 +746,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From 56981395606745f8ed8c643cdecf41fc22329d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 48/90] fix: commands such as \include in a header or paper
 block got lost

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index aca30ab..7780f4c 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -107,11 +107,11 @@ class LilyPondTransform(base.Transform):
 
     def header(self, items):
         """A Header element."""
-        return self.create_block(lily.Header, items, assignments=True)
+        return self.create_block(lily.Header, items, music=True, assignments=True)
 
     def paper(self, items):
         """A Paper element."""
-        return self.create_block(lily.Paper, items, assignments=True)
+        return self.create_block(lily.Paper, items, music=True, assignments=True)
 
     def layout(self, items):
         """A Layout element."""
-- 
2.43.0


From 67c7feeb4100742ce26e5e3682a589d823183b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 49/90] fix: LilyPond: keep a stray dot or comma in music

---
 quickly/lang/lilypond.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 7780f4c..01f3e72 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -961,6 +961,12 @@ class MusicBuilder:
             tremolo.append(self.factory(lily.Duration, (next(self.items),)))
         self.add_articulation(tremolo)
 
+    @_action(a.Delimiter)
+    def delimiter_action(self, token):
+        r"""Called for other ``Delimiter`` tokens, e.g. a stray dot or comma."""
+        yield from self.pending_music()
+        yield self.factory(lily.Separator, (token,))
+
     @_action(a.Delimiter.Separator.PipeSymbol)
     def pipe_symbol_action(self, token):
         r"""Called for ``Delimiter.Separator.PipeSymbol``."""
-- 
2.43.0


From e926f6018a4f6d8d4fbdda5e20b2820de3635438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 50/90] fix: \applyContext, \applyMusic and \applyOutput were
 read as generic functions

The element types existed, but were not in the table used to read builtin commands.
---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 01f3e72..ab76ba0 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1064,7 +1064,8 @@ class MusicBuilder:
 
     _builtin_mapping = element.head_mapping(
         lily.Absolute, lily.Acciaccatura, lily.AddQuote, lily.AfterGrace,
-        lily.Alternative, lily.AppendToTag, lily.Appoggiatura, lily.Bar,
+        lily.Alternative, lily.AppendToTag, lily.ApplyContext, lily.ApplyMusic,
+        lily.ApplyOutput, lily.Appoggiatura, lily.Bar,
         lily.Break, lily.Breathe, lily.Clef, lily.Default, lily.Fixed,
         lily.Grace, lily.GrobDashPattern, lily.GrobDirection, lily.GrobStyle,
         lily.InStaffSegno, lily.KeepWithTag, lily.Key, lily.Label, lily.Mark,
-- 
2.43.0


From 0ac985d3540602662216e94b59887cb83f0c3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 51/90] fix: html comments, CDATA sections and processing
 instructions got lost

They were transformed, but no handler added the results to the document.
---
 quickly/lang/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index caa17fb..cdec798 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif items[i].name in ("cdata", "comment", "processing_instruction"):
+                nodes.append(items[i].obj)
             i += 1
         return nodes
 
-- 
2.43.0


From 8e68de6a4313992bd01981ef668c18a2f9645ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 52/90] fix: the head value of a CDATA section contained its
 opening delimiter

So writing a modified section doubled the delimiter.
---
 quickly/dom/htm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index d9a669e..b79144d 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,7 +235,8 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return ''.join(t.text for t in origin if t != ']]>')
+        # leave out the '<![', 'CDATA' and '[' tokens
+        return ''.join(t.text for t in origin[3:] if t != ']]>')
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-- 
2.43.0


From 39d5b5571266ad94b65ce191c8823d7023e96300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 53/90] fix: Scheme: multiline comments end with !#, not #!

The closing delimiter became part of the comment text, and an invalid
delimiter was written.
---
 quickly/dom/scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..55d6c2c 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -89,11 +89,11 @@ class MultilineComment(base.MultilineComment):
     """A multiline comment in Scheme after ``#!``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From 49443e152501ac0b56470e0b54f172aea4626a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 54/90] fix: the last part of a string without closing quote
 got lost

---
 quickly/dom/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/base.py b/quickly/dom/base.py
index 36b5e2f..604a3d0 100644
--- a/quickly/dom/base.py
+++ b/quickly/dom/base.py
@@ -52,8 +52,9 @@ class String(element.TextElement):
 
     @classmethod
     def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '"' else None
         return ''.join(t.text[1:] if t.action is a.String.Escape else t.text
-            for t in origin[1:-1])
+            for t in origin[1:end])
 
     def write_head(self):
         return '"{}"'.format(re.sub(r'([\\"])', r'\\\1', self.head))
-- 
2.43.0


From 39470f52d682200065bef368ef7d2ffbb0926663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 55/90] fix: LilyPond: escapes like \n in a string changed into
 other characters on writing

The backslash was kept in the head value, and then written as an escaped
backslash.
---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index f57037c..dec72c2 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -664,6 +664,12 @@ class Symbol(element.TextElement):
 
 class String(base.String):
     r"""A quoted string."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if len(origin) > 1 and origin[-1] == '"' else None
+        text = ''.join(t.text for t in origin[1:end])
+        escapes = {'n': '\n', 't': '\t'}
+        return re.sub(r'\\([\\"\'nt])', lambda m: escapes.get(m[1], m[1]), text)
 
 
 class Scheme(element.TextElement):
-- 
2.43.0


From dc838670eb8020df2ae9c077df7d49b0b9311d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 56/90] fix: is_writable() returned True for a zero duration

---
 quickly/duration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/duration.py b/quickly/duration.py
index 02b1f66..d12a77c 100644
--- a/quickly/duration.py
+++ b/quickly/duration.py
@@ -238,5 +238,5 @@ def is_writable(value):
 
     """
     mantisse, exponent = math.frexp(value)
-    return -10 < exponent < 5 and math.frexp(1 - mantisse)[0] == 0.5
+    return value > 0 and -10 < exponent < 5 and math.frexp(1 - mantisse)[0] == 0.5
 
-- 
2.43.0


From edab1558313752908102f5e8c96b11789a2de138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 57/90] fix: chromatic_scale() was not rotated for keys more
 than an octave above C

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 3ee014c..99e5cc5 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
-- 
2.43.0


From fe9b8b3530426ec90bf05b149991073ff2b50218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 58/90] fix: KeySignature used the default scale for the
 alterations of the mode

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 99e5cc5..c399f0a 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -217,7 +217,7 @@ class KeySignature:
         self.mode = mode        #: The mode (a standard LilyPond mode name like "major" or a custom alterations list).
         self.scale = scale      #: The default scale.
         if isinstance(mode, str):
-            mode = alterations(mode_offset[mode])
+            mode = alterations(mode_offset[mode], scale)
         self.accidentals = accidentals(note, alter, mode, scale)    #: The accidentals for this key signature.
         #: The tuple of pitch values in the default scale to give a flat instead
         #: of a sharp when converting a MIDI key number to a pitch. The default
-- 
2.43.0


From a3821d121d7d5d20552467318afe8584f0f4e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 59/90] fix: KeySignature.pitch() could not be called with a
 list of flats

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index c399f0a..3aca825 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From 92e8612b9b284ccc9942f80d044fff2965df3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 60/90] fix: Abs2rel changed the notes in nested relative music

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 8f0cf3d..4db181e 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -254,7 +254,7 @@ class Abs2rel(edit.Edit):
                         stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
+                    lily.Inversion, lily.Key, lily.Absolute, lily.Fixed, lily.Relative,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     pass
-- 
2.43.0


From adc4569273fadac5b7d5ed1ef48336d7dc30114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 61/90] fix: Abs2rel made the pitch of an octave check relative

---
 quickly/relative.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index 4db181e..a92c215 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -248,6 +248,13 @@ class Abs2rel(edit.Edit):
             for n in processor.follow_language(node):
                 if isinstance(n, lily.Pitchable):
                     last_pitch = relative_note(n, last_pitch)
+                elif isinstance(n, lily.OctaveCheck):
+                    # always absolute, the next note is relative to it
+                    for note in n / lily.Pitchable:
+                        p = processor.read_node(note)
+                        if last_pitch is None:
+                            get_first_pitch(p)
+                        last_pitch = p
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
                     for note in n / lily.Pitchable:
-- 
2.43.0


From b40a81e5c38face1192d917c9f54ab1f957ad0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 62/90] fix: Transpose handled music in a nested transpose
 command as relative music

---
 quickly/transpose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 433447e..a6bab4f 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -168,7 +168,10 @@ class Transpose(edit.Edit):
                     pitches, rest = n[:2], n[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        transpose_absolute(rest)    # not affected by \relative
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From 6d1024a59d621e6afad46bfbfc02b847d345c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 63/90] fix: Transpose wrote a wrong octave check in relative
 music with a start pitch

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index a6bab4f..ccd1a20 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -251,8 +251,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From 65162a42b39c51dbe0c0b817bdebf685ff77c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 64/90] fix: Rel2abs did not recognize every start pitch that
 Transpose does

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index a92c215..d733b16 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -90,7 +90,7 @@ class Rel2abs(edit.Edit):
             index = parent.index(node)
 
             nodes = list(util.skip_comments(node))
-            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitch):
+            if len(nodes) > 1 and isinstance(nodes[0], lily.Pitchable):
                 start_note, *nodes = nodes
                 last_pitch = processor.read_node(start_note)
             elif first_pitch_absolute:
-- 
2.43.0


From 3d82e50711d6066eeee3152864a6f4ed0301e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 65/90] fix: Abs2rel changed chordmode music outside the range

---
 quickly/relative.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index d733b16..660f885 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -201,7 +201,10 @@ class Abs2rel(edit.Edit):
                     else:
                         abs2rel()
                 elif isinstance(n, lily.ChordMode):
-                    r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                    if r.in_range():
+                        r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                    else:
+                        abs2rel()
 
         # Do it!
         abs2rel()
-- 
2.43.0


From 8a4188dba41e5f6cb436e2f154bd747ef79ea248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 66/90] fix: Range.nodes() yielded the start node of an empty
 range

---
 quickly/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index a593cb3..260b8b7 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1143,6 +1143,8 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if self.start_trail and self.end_trail is not None and self.end_trail < self.start_trail:
+            return  # the end node is before the start node
         self._goto_trail(self.start_trail)
         if self.start_trail:
             node = self.node
-- 
2.43.0


From a2b7aa448a9df6f57efacd34538bfd017ebbe816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 67/90] fix: Edit.edit_cursor() did not edit exactly the nodes
 that are selected

---
 quickly/dom/edit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index b6f6f7b..0e3b16f 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -110,12 +110,18 @@ class Edit:
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            if start_node and end_node:
+                start = start_node.pos
+                end = end_node.end
+                # a Range does not include the children of its end node
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+                if r.ancestor() is start_node:
+                    # iterating does not include the ancestor itself
+                    r = Range.from_nodes(start_node, end_node, True)
+            else:
+                r = Range(d, None, [])  # no nodes are selected
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
-- 
2.43.0


From 5deb5434730abbfd0edd1c5ffa107aae4477c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 68/90] fix: iterating over a Range failed when the end node
 had been removed

---
 quickly/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 260b8b7..ec64ee6 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1312,7 +1312,10 @@ class Range(Common):
             self.end_trail = end_trail
             # for convenience, store start and end indices for the range
             self.start = start_trail[depth] if start_trail else 0
-            self.end = len(node) - 1 if end_trail is None else end_trail[depth] if len(end_trail) > depth else -1
+            self.end = len(node) - 1
+            if end_trail is not None:
+                # children of this node, e.g. the end node, may have been removed
+                self.end = min(self.end, end_trail[depth]) if len(end_trail) > depth else -1
             self.index = -1 # so that iteration will start correctly
 
         def __iter__(self):
@@ -1360,6 +1363,8 @@ class Range(Common):
             for i in self.end_trail[self.depth:]:
                 if i < len(n) - 1:
                     return False    # this descendant is sliced from the end
+                elif i >= len(n):
+                    return True     # the end node has been removed
                 n = n[i]
             return len(n) == 0      # not complete if the end node has children
 
-- 
2.43.0


From ef66e762c81256b3e1e257d0204af4f8297fe340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 69/90] fix: Abs2rel did not make the notes in chords relative

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 660f885..5eff556 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -260,7 +260,7 @@ class Abs2rel(edit.Edit):
                         last_pitch = p
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
+                    for note in n.instances_of(lily.Pitchable):
                         stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, (
-- 
2.43.0


From 2ad169c6ee617919bed589e83d1fde1f702843ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 70/90] fix: pitch language set before the selection was not
 used by Rel2abs and Abs2rel

---
 quickly/relative.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 5eff556..a3bb9ca 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -56,9 +56,7 @@ class Rel2abs(edit.Edit):
         """Do the pitch conversion."""
         node = r.ancestor()
         processor = self.processor or PitchProcessor()
-
-        if not node.is_root():
-            processor.find_language(node)
+        processor.find_language(r.start_node() or node)
 
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
@@ -188,7 +186,7 @@ class Abs2rel(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        processor, first_pitch_absolute = self._get_settings(r.start_node() or r.ancestor())
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-- 
2.43.0


From 1eaf1dfa8dbaa16c6465899bbf3eb945d47b21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 71/90] fix: Rel2abs and Abs2rel missed a language change in
 music they do not change

---
 quickly/pitch.py    |  6 ++++++
 quickly/relative.py | 11 +++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index ec3bcc7..dfcacc4 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -477,6 +477,12 @@ class PitchProcessor:
                     continue
             yield n
 
+    def skip_language(self, node):
+        r"""Follow the language changes in a DOM node (or Range) that is skipped."""
+        from .dom import lily
+        for n in self.follow_language(node.instances_of((lily.Language, lily.Include))):
+            pass
+
     def distill_preferences(self, names):
         """Iterate over the ``names`` and try to distill the preferred style.
 
diff --git a/quickly/relative.py b/quickly/relative.py
index a3bb9ca..edb6bef 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -78,7 +78,7 @@ class Rel2abs(edit.Edit):
                         lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
                     )):
-                    pass
+                    processor.skip_language(n)
                 else:
                     yield from notes(n)
 
@@ -122,8 +122,11 @@ class Rel2abs(edit.Edit):
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
         for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
-                make_absolute(n)
+            if isinstance(n, lily.Relative):
+                if r.in_range():
+                    make_absolute(n)
+                else:
+                    processor.skip_language(r)
 
 
 def rel2abs(music):
@@ -265,7 +268,7 @@ class Abs2rel(edit.Edit):
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed, lily.Relative,
                     lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
-                    pass
+                    processor.skip_language(n)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From 245e421bb4c544d166c0d0c0e4e0dcb6e7f3236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 72/90] fix: Abs2rel changed the pitches in fixed music, and
 missed a language change in relative music

---
 quickly/relative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index edb6bef..dd99267 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -194,7 +194,7 @@ class Abs2rel(edit.Edit):
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
             nodes = r.instances_of((
-                lily.Language, lily.Include, lily.MusicList, lily.Relative, lily.ChordMode))
+                lily.Language, lily.Include, lily.MusicList, lily.Relative, lily.Fixed, lily.ChordMode))
             for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
@@ -206,6 +206,8 @@ class Abs2rel(edit.Edit):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
+                elif isinstance(n, (lily.Relative, lily.Fixed)):
+                    processor.skip_language(r)
 
         # Do it!
         abs2rel()
-- 
2.43.0


From b21a9ee4ff5036328e4c45eee1371f128a36e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 73/90] fix: rhythm operations added durations to the notes
 inside a chord

Only the chord has a duration; explicit made <c e>4 into <c4 e4>4, and copy
and paste counted the notes of a chord as well.
---
 quickly/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index d12bdfd..c9615f0 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -47,6 +47,9 @@ class EditRhythm(edit.Edit):
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
                     continue
+                # the notes inside a chord don't have their own duration
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 yield n
 
     @staticmethod
-- 
2.43.0


From 38a8782356b5ecc23684642af5123a31cf214751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 74/90] fix: removing a duration could give an element the
 duration of the next one

A duration must also be kept when there is a comment between the element and
the duration that comes next, or when the element is the last one in e.g. a
\grace or \tuplet without brackets.
---
 quickly/rhythm.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index c9615f0..02960df 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -32,7 +32,7 @@ or any :class:`~.dom.element.Element` node (DOM tree).
 import itertools
 
 
-from .dom import edit, lily, util
+from .dom import base, edit, lily, util
 from .duration import duration
 
 
@@ -57,7 +57,7 @@ class EditRhythm(edit.Edit):
         """Return True if the duration of this node may be removed.
 
         A duration may not be removed if ``node.duration_required`` is True,
-        or when the node's right sibling has only the duration visible, such as
+        or when the node that follows has only the duration visible, such as
         is the case with an unpitched note or an empty lyric item.
 
         In that case, the current duration may not be removed, because the next
@@ -69,13 +69,17 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
-            if isinstance(n, lily.Unpitched):
-                return False
-            elif isinstance(n, lily.LyricItem) and n.duration_required:
-                return False
-        return True
+        while True:
+            for n in node.right_siblings():
+                if isinstance(n, lily.Unpitched):
+                    return False
+                elif isinstance(n, lily.LyricItem) and n.duration_required:
+                    return False
+                elif not isinstance(n, base.Comment):
+                    return True
+            node = node.parent
+            if not node or node.tail:
+                return True # nothing follows, or a bracket
 
     def edit_range(self, r):
         """Perform our operations on all Durables in the range."""
-- 
2.43.0


From 58c90f3e1feb52761698d0a3b1009de320a3cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 75/90] fix: PasteRhythm repeated a duration that is not in
 force

A duration pasted to a \skip is not the previous duration for the next notes.
---
 quickly/rhythm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 02960df..65cfc47 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -307,7 +307,8 @@ class PasteRhythm(EditRhythm):
         for node, duration in zip(self.durables(r), durs):
             if duration:
                 node.duration_scaling = duration
-                prev = duration
+                if node.duration_sets_previous:
+                    prev = duration
             elif self.may_remove(node):
                 del node.duration
             elif prev:
-- 
2.43.0


From afecf82c19c2c2a4f2b72891ff3c30499d3e7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 76/90] fix: an include command could include the file itself
 again, forever

---
 quickly/dom/scope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..69e8556 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -89,9 +89,12 @@ class Scope:
         of ourselves.
 
         """
+        # never include a document in itself; different urls can point to it
+        included = {scope.document().url for scope in self.ancestors()}
+        included.add(self.document().url)
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc and (doc.url is None or doc.url not in included):
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 2d9f660242d8fbda51636d8bce10dd052abb56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 77/90] fix: an empty included file was handled as missing

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 69e8556..b36af9d 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -94,7 +94,7 @@ class Scope:
         included.add(self.document().url)
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc and (doc.url is None or doc.url not in included):
+            if doc is not None and (doc.url is None or doc.url not in included):
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 8e16cf7103d79583478a2d7e94b68d403d665f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 78/90] fix: an included file with an invalid name or contents
 raised a ValueError

---
 quickly/dom/scope.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index b36af9d..bfbea97 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -128,7 +128,10 @@ class Scope:
         urls = []
         def add(base_url):
             if base_url:
-                u = urljoin(base_url, url)
+                try:
+                    u = urljoin(base_url, url)
+                except ValueError:
+                    return
                 if u not in skip and u not in urls:
                     urls.append(u)
         if self.relative_include:
@@ -145,12 +148,13 @@ class Scope:
 
         Returns None if no document can be found. The default implementation
         calls :attr:`factory` with a filename pointing to the local file
-        system. OSErrors raised by the factory are suppressed.
+        system. OSErrors and ValueErrors (file names or contents that can't be
+        decoded) raised by the factory are suppressed.
 
         """
         filename = urlparse(url).path
         try:
             return self.factory(filename)
-        except OSError:
+        except (OSError, ValueError):
             pass
 
-- 
2.43.0


From 84289762e89b42bb2e69cf45def398f860d308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 79/90] fix: align indented lines with the child node itself,
 not with a descendant of it

---
 quickly/dom/indent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 23afe0b..b51cfe8 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -160,11 +160,13 @@ class Indenter:
             self.enter_indent(node)
 
         if has_children:
+            # the indices are only meaningful for the current indent level if it
+            # is ours; without head text, our first child appears in our place
             n = node[0]
-            self.output_node(n, 0)
+            self.output_node(n, 0 if indent else -1 if head else index)
             for i, m in enumerate(node[1:], 1):
                 self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+                self.output_node(m, i if indent else -1)
                 n = m
 
         if indent:
-- 
2.43.0


From fd35861b34b09b6f35b6241dbf6d35ef9bbd1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 80/90] fix: align indented lines relative to the actual indent
 of the previous line

---
 quickly/dom/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b51cfe8..6239b66 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -209,14 +209,14 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        new_indent = self._output[-1].indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From 9a3e3b5b03771ad2069cc88987f16b56ca212263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 81/90] fix: afterGrace takes the length of a referenced main
 music

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index dec72c2..52797cd 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2380,7 +2380,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, (Music, Reference)):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From c4d31a7a4edba5e36b6e442a6721c3ad396064fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 82/90] fix: the number argument of mark takes no time

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 52797cd..25c6dd1 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2074,7 +2074,7 @@ class Label(element.HeadElement, Music):
         yield Scheme,
 
 
-class Mark(element.HeadElement, Music):
+class Mark(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""A ``\mark`` command. Has one child."""
     head = r'\mark'
 
-- 
2.43.0


From c32b6690a2f9aa1f6471b2596b7f54e8056b53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 83/90] fix: accept a single number as argument of volta

---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 25c6dd1..cd60684 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1334,13 +1334,13 @@ class Unfolded(element.HeadElement, Music):
         yield MUSIC,
 
 
-class Volta(element.HeadElement, Music):
+class Volta(_ConvertUnpitchedToInt, element.HeadElement, Music):
     r"""The ``\volta`` command."""
     head = r'\volta'
     space_between = space_after_head = " "
 
     def signatures(self):
-        yield (List, Scheme), MUSIC
+        yield (List, Int, Unpitched, Scheme), MUSIC
 
 
 class Transposition(element.HeadElement, Music):
-- 
2.43.0


From b76f0df92c999f54fb35e3c551f349e8b33d49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 84/90] fix: the music of tag, keepWithTag, removeWithTag and
 applyMusic is music

---
 quickly/dom/lily.py | 8 ++++----
 quickly/time.py     | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index cd60684..1eb14bf 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1224,7 +1224,7 @@ class ApplyContext(element.HeadElement):
         yield Scheme,
 
 
-class ApplyMusic(element.HeadElement):
+class ApplyMusic(element.HeadElement, Music):
     r"""The ``\applyMusic`` function."""
     space_between = space_after_head = " "
     head = r'\applyMusic'
@@ -2541,7 +2541,7 @@ class FigureAlteration(element.MappingElement):
     }
 
 
-class Tag(element.HeadElement):
+class Tag(element.HeadElement, Music):
     r"""A ``\tag`` command."""
     head = r'\tag'
 
@@ -2549,7 +2549,7 @@ class Tag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class KeepWithTag(element.HeadElement):
+class KeepWithTag(element.HeadElement, Music):
     r"""A ``\keepWithTag`` command."""
     head = r'\keepWithTag'
 
@@ -2557,7 +2557,7 @@ class KeepWithTag(element.HeadElement):
         yield (Symbol, String, Scheme), MUSIC
 
 
-class RemoveWithTag(element.HeadElement):
+class RemoveWithTag(element.HeadElement, Music):
     r"""A ``\removeWithTag`` command."""
     head = r'\removeWithTag'
 
diff --git a/quickly/time.py b/quickly/time.py
index 5cc8204..0828a67 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -150,8 +150,12 @@ class Time:
             return node
         for chord in node << lily.Chord:
             return chord
+        def is_music(node):
+            # a tag command before an articulation is not a music expression
+            return isinstance(node, lily.Music) and not (isinstance(node, lily.Tag)
+                and isinstance(node.parent, (lily.Articulations, lily.Direction)))
         while node:
-            if isinstance(node, lily.Music) or isinstance(node.parent, lily.Music):
+            if is_music(node) or is_music(node.parent):
                 return node
             node = node.parent
 
-- 
2.43.0


From 761a4591b74df4561635d15031458a56a0e62399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 85/90] fix: pushToTag and appendToTag have two music arguments

---
 quickly/dom/lily.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 1eb14bf..c2cb752 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2573,20 +2573,20 @@ class TagGroup(element.HeadElement):
         yield (Symbol, String, Scheme),
 
 
-class PushToTag(element.HeadElement):
+class PushToTag(element.HeadElement, Music):
     r"""A ``\pushToTag`` command."""
     head = r'\pushToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (Symbol, String, Scheme), MUSIC, MUSIC
 
 
-class AppendToTag(element.HeadElement):
+class AppendToTag(element.HeadElement, Music):
     r"""A ``\appendToTag`` command."""
     head = r'\appendToTag'
 
     def signatures(self):
-        yield (Symbol, String, Scheme), MUSIC
+        yield (Symbol, String, Scheme), MUSIC, MUSIC
 
 
 class Etc(element.HeadElement):
-- 
2.43.0


From f78a76f9095232adaa0aa8f23a68f640da533976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 86/90] fix: a Range was not empty although its end node is an
 ancestor of its start node

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index ec64ee6..1624a4a 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -792,6 +792,8 @@ class Range(Common):
 
     def __bool__(self):
         """False if the range is empty."""
+        if self.start_trail and self.end_trail is not None and self.end_trail < self.start_trail:
+            return False # the end node is before the start node
         level = self._stack[0]
         return level.start <= level.end
 
@@ -1119,7 +1121,7 @@ class Range(Common):
         """
         r = self.from_here()
         tree = node = r.ancestor().copy(False)
-        while True:
+        while r:
             for n in r:
                 c = n.copy(False)
                 node.append(c)
-- 
2.43.0


From af39301e8373d2510d4f2d30372080a3baae3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 87/90] fix: Range membership takes all descendants into
 account, like in_range()

---
 quickly/node.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 1624a4a..57ee33d 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -832,13 +832,16 @@ class Range(Common):
         of :meth:`_get_trail`).
 
         """
-        if not trail:   # empty list. Ancestor itself? ok if in_range()
-            return self._stack[0].start_in_range() and self._stack[0].end_in_range()
-        elif self.start_trail and trail < self.start_trail:
-            return False
-        elif self.end_trail is not None and trail > self.end_trail:
+        level = self._stack[0]
+        for index in trail:
+            if not level.start <= index <= level.end:
+                return False
+            level = level.child(index)
+        if not level.start_in_range():
             return False
-        return True
+        elif trail and trail == self.end_trail:
+            return bool(self)   # the end node may have children outside the range
+        return level.end_in_range()
 
     def _trail_intersects(self, trail):
         """Return True if the trail intersects with our range.
-- 
2.43.0


From a8e685d52bcf3baab668f6d62b2aecaf3c5bface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 88/90] fix: removing the first or last node of a Range moved
 nodes outside of it into the Range

---
 quickly/node.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 57ee33d..7d0e1ee 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -918,12 +918,10 @@ class Range(Common):
                 # adjust start boundary if needed
                 if index <= level.start:
                     if index + removed > level.start:
-                        level.start = index + added
+                        level.start = index
                         if adjust_start:
                             # deleted node was on the start trail, truncate
-                            del level.start_trail[level.depth:]
-                            if 0 < level.start < length:
-                                level.start_trail.append(level.start)
+                            level.start_trail[level.depth:] = [level.start]
                     else:
                         level.start += added - removed
                         if adjust_start:
@@ -932,12 +930,18 @@ class Range(Common):
                 # adjust end boundary
                 if index <= level.end:
                     if index + removed > level.end:
-                        level.end = index + added
+                        level.end = index + added - 1
                         if adjust_end:
                             # deleted node was on the end trail, truncate
                             del level.end_trail[level.depth:]
-                            if level.end < length:
+                            if level.end >= 0:
                                 level.end_trail.append(level.end)
+                                if not added:
+                                    # the preceding node is completely in the range
+                                    n = level.node[level.end]
+                                    while len(n):
+                                        level.end_trail.append(len(n) - 1)
+                                        n = n[-1]
                     else:
                         level.end += added - removed
                         if adjust_end:
@@ -1150,11 +1154,9 @@ class Range(Common):
         """
         if self.start_trail and self.end_trail is not None and self.end_trail < self.start_trail:
             return  # the end node is before the start node
-        self._goto_trail(self.start_trail)
-        if self.start_trail:
-            node = self.node
-            if (yield node) is not False and len(node):
-                yield from self.descendants()
+        # the start node itself may have been removed, just start at its place
+        self._goto_trail(self.start_trail and self.start_trail[:-1])
+        self.enter()
         yield from self.forward()
 
     def __truediv__(self, cls):
-- 
2.43.0


From c8d11ae405af6f27f9b1024cd134a1d5652d0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 89/90] fix: a Range skipped the node after the one that was
 removed during iteration

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 7d0e1ee..b0ee249 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -954,7 +954,7 @@ class Range(Common):
                 # adjust level index
                 if index <= level.index:
                     if index + removed > level.index:
-                        level.index = index + added
+                        level.index = index + added - 1
                     else:
                         level.index += added - removed
         else:
-- 
2.43.0


From 1a631c7adf151ee8769e18ca74c4b782b3b4cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 90/90] fix: nodes inserted at the beginning of a level without
 start boundary were not iterated

---
 quickly/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index b0ee249..c5da5ab 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -922,10 +922,9 @@ class Range(Common):
                         if adjust_start:
                             # deleted node was on the start trail, truncate
                             level.start_trail[level.depth:] = [level.start]
-                    else:
+                    elif adjust_start:
                         level.start += added - removed
-                        if adjust_start:
-                            level.start_trail[level.depth] = level.start
+                        level.start_trail[level.depth] = level.start
 
                 # adjust end boundary
                 if index <= level.end:
-- 
2.43.0

