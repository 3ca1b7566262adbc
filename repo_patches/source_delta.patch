From 7b05e33de77012c41a74f936f093edd718724fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:19 +0000
Subject: [PATCH 01/31] fix: read the junction diameter into its own attribute

Junction.from_sexpr stored the diameter in the color attribute, so a loaded
junction lost its diameter (and its color, when the color came first).
---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From 2813cb840e74288d437107c0253f98aacf07e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 02/31] fix: keep all parts of a symbol curve when saving

SyCurve.to_sexpr overwrote the text built so far instead of appending to it
and produced unbalanced output without any point.
---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From 36b39a28daf8b5b8932bb654ea4b7fe70fd7129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:22 +0000
Subject: [PATCH 03/31] fix: give every netclass flag its own position and
 effects

The default factories returned the classes themselves, shared by all flags.
---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From a6572962cb30706b9d97a29b0dc5355b799f35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 04/31] fix: save and load the angle of graphic lines

GrLine.to_sexpr left the angle token unclosed and from_sexpr ignored it.
---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..f6c72c3 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -328,6 +328,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -349,7 +350,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From 6225ead91e6bc7c228388067a2402779f51255ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:39 +0000
Subject: [PATCH 05/31] fix: save the use-aux-origin plot option

PlotSettings.to_sexpr always wrote false, whatever useAuxOrigin held.
---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..5327d7b 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {str(self.useAuxOrigin).lower()})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From 9d64bdd8ad3e0b7b2d6f5727572d1acb9769144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:40 +0000
Subject: [PATCH 06/31] fix: save the locked flag of footprint lines

FpLine.from_sexpr understood the flag, to_sexpr dropped it.
---
 src/kiutils/items/fpitems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..1edd42f 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -215,6 +215,7 @@ class FpLine():
         indents = ' '*indent
         endline = '\n' if newline else ''
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        locked = ' locked' if self.locked else ''
         if self.width is not None:
             width = f' (width {self.width})'
         elif self.stroke is not None:
@@ -222,7 +223,7 @@ class FpLine():
         else:
             width = ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        return f'{indents}(fp_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From 911529cb55bf022a21856fd9a4ffe6d0c89855ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:56 +0000
Subject: [PATCH 07/31] fix: save dimensions completely and without null tokens

Dimension.to_sexpr dropped the locked flag, wrote (tstamp None) for an unset
tstamp and did not escape quotes in the layer name.
---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From f47d98b14485eff5ecea5afdf5d783f02cbfb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:57 +0000
Subject: [PATCH 08/31] fix: remember the path a footprint was loaded from

Footprint.from_file documents that it sets filePath but did not.
---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..0ded3b3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -932,7 +932,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From 93106d3c093f2b2af5c770ee0bf5b6fb1ea2e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:59 +0000
Subject: [PATCH 09/31] fix: let worksheets be saved with a chosen encoding

WorkSheet.to_file was the only file writer without the encoding parameter.
---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..fc04c1d 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform 
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From 37d6d34fd41c926e8b1361833c7282836b3b4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 10/31] fix: keep the existing file when an object cannot be
 serialised

All to_file methods opened (and thereby truncated) the target before calling
to_sexpr, which may raise.
---
 src/kiutils/board.py     | 4 +++-
 src/kiutils/dru.py       | 4 +++-
 src/kiutils/footprint.py | 4 +++-
 src/kiutils/libraries.py | 4 +++-
 src/kiutils/schematic.py | 4 +++-
 src/kiutils/symbol.py    | 4 +++-
 src/kiutils/wks.py       | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..01e9d9c 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,10 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..87bff8b 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,10 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 0ded3b3..a069730 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1005,8 +1005,10 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..eb02c16 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,10 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..8330671 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,10 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..852207a 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -569,8 +569,10 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index fc04c1d..5c205b9 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -939,8 +939,10 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the text first: an error while doing so must not truncate an existing file
+        text = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(text)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From 8b8f334d10c1dde3be5599a8a8668ce376c00033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:37 +0000
Subject: [PATCH 11/31] fix: leave out unset tokens of targets, zone fills and
 symbol libraries

An unset tstamp, thermal gap, thermal bridge width or generator was written
as (token None) and read back as the text "None". The target layer is
escaped like every other layer name.
---
 src/kiutils/items/brditems.py | 4 +++-
 src/kiutils/items/zones.py    | 4 +++-
 src/kiutils/symbol.py         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5327d7b..5140b8c 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1101,4 +1101,6 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..0654287 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -237,6 +237,8 @@ class FillSettings():
 
         yes = ' yes' if self.yes else ''
         mode = f' (mode {self.mode})' if self.mode is not None else ''
+        tg = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        tbw = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
         smoothing = f' (smoothing {self.smoothingStyle})' if self.smoothingStyle is not None else ''
         radius = f' (radius {self.smoothingRadius})' if self.smoothingRadius is not None else ''
         irm = f' (island_removal_mode {self.islandRemovalMode})' if self.islandRemovalMode is not None else ''
@@ -249,7 +251,7 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        return f'{indents}(fill{yes}{mode}{tg}{tbw}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 852207a..09448be 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -587,7 +587,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From e39cec4e2039f1d8d67897b8a268b962174c7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:39 +0000
Subject: [PATCH 12/31] fix: leave out the width of graphic items when it is
 unset

An unset width was written as (width None).
---
 src/kiutils/items/gritems.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index f6c72c3..03a62b6 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -350,9 +350,10 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         angle = f' (angle {self.angle})' if self.angle is not None else ''
 
-        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrRect():
@@ -432,9 +433,10 @@ class GrRect():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrCircle():
@@ -515,9 +517,10 @@ class GrCircle():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrArc():
@@ -598,8 +601,9 @@ class GrArc():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
 
-        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){tstamp}){endline}'
+        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrPoly():
@@ -684,6 +688,7 @@ class GrPoly():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
         locked = f' locked' if self.locked else ''
 
@@ -695,7 +700,7 @@ class GrPoly():
 
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
-        expression += f'{indents}  ){layer} (width {self.width}){fill}{tstamp}){endline}'
+        expression += f'{indents}  ){layer}{width}{fill}{tstamp}){endline}'
         return expression
 
 @dataclass
@@ -772,10 +777,11 @@ class GrCurve():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
+        width = f' (width {self.width})' if self.width is not None else ''
         locked = f' locked' if self.locked else ''
 
         expression = f'{indents}(gr_curve{locked} (pts\n'
         for point in self.coordinates:
             expression += f'{indents}  (xy {point.X} {point.Y})\n'
-        expression += f'{indents}){layer} (width {self.width}){tstamp}){endline}'
+        expression += f'{indents}){layer}{width}{tstamp}){endline}'
         return expression
-- 
2.43.0


From 5255ae97b4bd392a329e65d7a47c119f4feaa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:53 +0000
Subject: [PATCH 13/31] fix: load the text of locked graphic texts

GrText.to_sexpr writes the locked flag before the text, from_sexpr took the
flag for the text.
---
 src/kiutils/items/gritems.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 03a62b6..fae7078 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,17 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+
+        # The "locked" token may come before the text
+        if exp[1] == 'locked' and len(exp) > 2 and not isinstance(exp[2], list):
+            object.locked = True
+            object.text = exp[2]
+            start_at = 3
+        else:
+            object.text = exp[1]
+            start_at = 2
+
+        for item in exp[start_at:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From b3bf01bd7caec6a7899c5be295da57e3934a6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:10 +0000
Subject: [PATCH 14/31] fix: load drill definitions that leave out the width or
 diameter

---
 src/kiutils/footprint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index a069730..33b5539 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -262,10 +262,12 @@ class DrillDefinition():
         if exp[1] == 'oval':
             object.oval = True
             object.diameter = exp[2]
-            object.width = exp[3]
+            if len(exp) > 3 and not isinstance(exp[3], list):
+                object.width = exp[3]
         else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
+            if not isinstance(exp[1], list):
+                object.diameter = exp[1]
+            if len(exp) > 2 and not isinstance(exp[2], list):
                 object.width = exp[2]
 
         # The ``offset`` token may not be given
-- 
2.43.0


From 2f0a3e94789b6dd5e694c149097eb0fc86cbfe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 15/31] fix: honour the value of the castellated pads and edge
 plating tokens

---
 src/kiutils/items/brditems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5140b8c..ea780c5 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -373,8 +373,8 @@ class Stackup():
             if item[0] == 'copper_finish': object.copperFinish = item[1]
             if item[0] == 'dielectric_constraints': object.dielectricContraints = item[1]
             if item[0] == 'edge_connector': object.edgeConnector = item[1]
-            if item[0] == 'castellated_pads': object.castellatedPads = True
-            if item[0] == 'edge_plating': object.edgePlating = True
+            if item[0] == 'castellated_pads': object.castellatedPads = True if item[1] == 'yes' else False
+            if item[0] == 'edge_plating': object.edgePlating = True if item[1] == 'yes' else False
         return object
 
     def to_sexpr(self, indent=4, newline=True) -> str:
-- 
2.43.0


From 3e98fccb477e9e30c75f41a4ef8cf53f65021983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:13 +0000
Subject: [PATCH 16/31] fix: load symbols with a pin_numbers token without
 options

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 09448be..8671290 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -380,7 +380,7 @@ class Symbol():
         for item in exp[2:]:
             if item[0] == 'extends': object.extends = item[1]
             if item[0] == 'pin_numbers':
-                if item[1] == 'hide':
+                if len(item) > 1 and item[1] == 'hide':
                     object.hidePinNumbers = True
             if item[0] == 'pin_names':
                 object.pinNames = True
-- 
2.43.0


From 8a2f680658d83794a23ef78d72bee6f0c8cb15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:15 +0000
Subject: [PATCH 17/31] fix: do not lock groups that are named locked

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f511ec8 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 99203cd4399e16da444df63ff2df3a58c1cd8eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:17 +0000
Subject: [PATCH 18/31] fix: load render caches

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f511ec8..863c8fa 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -992,7 +992,7 @@ class RenderCache():
         object = cls()
         object.text = exp[1]
         object.id = exp[2]
-        for item in exp:
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 4edbbbe4df7ce4a5995c270d6435de406f04f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:41 +0000
Subject: [PATCH 19/31] fix: do not invent an edit time for footprints that
 have none

---
 src/kiutils/footprint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 33b5539..c74a26d 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -728,8 +728,8 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
-    """The ``tedit`` token defines a the last time the footprint was edited"""
+    tedit: Optional[str] = None
+    """The optional ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
     """The ``tstamp`` token defines the unique identifier for the footprint. This only applies
@@ -959,7 +959,8 @@ class Footprint():
 
         fp = cls(
             version = KIUTILS_CREATE_NEW_VERSION_STR,
-            generator = 'kiutils'
+            generator = 'kiutils',
+            tedit = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
         )
         fp.libId = library_id
 
@@ -1030,6 +1031,7 @@ class Footprint():
         placed = ' placed' if self.placed else ''
         version = f' (version {self.version})' if self.version is not None else ''
         generator = f' (generator {self.generator})' if self.generator is not None else ''
+        tedit = f' (tedit {self.tedit})' if self.tedit is not None else ''
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
 
         expression =  f'{indents}(footprint "{dequote(self.libId)}"{locked}{placed}{version}{generator}'
@@ -1037,7 +1039,8 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        if tedit or tstamp:
+            expression += f'{indents} {tedit}{tstamp}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From e0b142efc3c53c76eafd7df5d075fab6733894db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:44 +0000
Subject: [PATCH 20/31] fix: keep circumflex characters in unquoted words

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..b7a1402 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From 12830377ffbdcc096ede40cf768f4c31bd02571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:58 +0000
Subject: [PATCH 21/31] fix: escape double quotes in stackup layer types

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index ea780c5..79832f1 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From 65b37a34431632f9daaea840834d8230de467b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 22/31] fix: load the id of render caches as a number

---
 src/kiutils/items/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 863c8fa..e0c7f53 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -991,7 +991,8 @@ class RenderCache():
 
         object = cls()
         object.text = exp[1]
-        object.id = exp[2]
+        # The number is followed by a newline, which the parser does not take as the end of a number
+        object.id = int(exp[2])
         for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
-- 
2.43.0


From 53e8944f96f5bf7dfd27279c4f44953878d41353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:45 +0000
Subject: [PATCH 23/31] fix: read integers of any size exactly

---
 src/kiutils/utils/sexpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index b7a1402..50963b9 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,11 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            if '.' in value:
+                v = float(value)
+                if v.is_integer(): v = int(v)
+            else:
+                v = int(value)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From 74d1571b81c39594acbb30d6345a201df569abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:36 +0000
Subject: [PATCH 24/31] fix: keep library identifiers exactly as they were
 assigned

Names such as Conn_02_05 lost the leading zeros of what looks like unit and
style numbers, and a trailing line break was dropped.
---
 src/kiutils/footprint.py      | 2 +-
 src/kiutils/items/schitems.py | 2 +-
 src/kiutils/symbol.py         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index c74a26d..bf91120 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -697,7 +697,7 @@ class Footprint():
               or only ``<entryName>``
         """
         # kicad5 fix: module names may not be quoted strings (only numbers) - see PR #91
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", str(symbol_id))
+        parse_symbol_id = re.match(r"^(.+?):(.+?)\Z", str(symbol_id))
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 9599789..7949df2 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -993,7 +993,7 @@ class SchematicSymbol():
             - symbol_id (str): The symbol id in the following format: ``<libraryNickname>:<entryName>``
               or only ``<entryName>``
         """
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.match(r"^(.+?):(.+?)\Z", symbol_id)
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 8671290..dfd2c51 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -264,7 +264,7 @@ class Symbol():
             - Exception: If the given ID is neither a top-level nor a child symbol
         """
         # Try to parse the given ID
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.match(r"^(.+?):(.+?)\Z", symbol_id)
         if parse_symbol_id:
             # The symbol is a top-level symbol with a library nickname
             self.libraryNickname = parse_symbol_id.group(1)
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)\Z", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From fe0f959cd7400377e2e10d65a7f41d51fa26a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:07 +0000
Subject: [PATCH 25/31] fix: do not save the name of unnamed symbols and
 footprints as None

---
 src/kiutils/footprint.py      | 2 +-
 src/kiutils/items/schitems.py | 2 +-
 src/kiutils/symbol.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index bf91120..70d2f1a 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -709,7 +709,7 @@ class Footprint():
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
     and is a part of the ``id`` token"""
     
-    entryName: str = None
+    entryName: str = ""
     """The ``entryName`` token defines the actual name of the symbol and is a part of the ``id`` 
     token"""
 
diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 7949df2..1fa866e 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1005,7 +1005,7 @@ class SchematicSymbol():
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
     and is a part of the ``id`` token"""
 
-    entryName: str = None
+    entryName: str = ""
     """The ``entryName`` token defines the actual name of the symbol and is a part of the ``id``
     token"""
 
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index dfd2c51..4ade601 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -294,7 +294,7 @@ class Symbol():
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
     and is a part of the ``id`` token"""
     
-    entryName: str = None
+    entryName: str = ""
     """The ``entryName`` token defines the actual name of the symbol and is a part of the ``id`` 
     token"""
 
-- 
2.43.0


From 2625982eb2acd328f57fc62324ae117622785a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:36 +0000
Subject: [PATCH 26/31] fix: honour newline=False when saving zone polygons

---
 src/kiutils/items/zones.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 0654287..8eb3ccf 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -312,7 +312,7 @@ class ZonePolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -391,7 +391,7 @@ class FilledPolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 # TODO: This is KiCad 4 stuff, has to be tested yet ..
@@ -465,7 +465,7 @@ class FillSegments():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
-- 
2.43.0


From fe5fde2eafc257abeb49f20aaa095d64aeeaaf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:07 +0000
Subject: [PATCH 27/31] fix: a segment without tstamp is saved without the
 token instead of an empty, unloadable one

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 79832f1..fc5d194 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -829,8 +829,9 @@ class Segment():
         indents = ' '*indent
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp != '' else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From d68f8c9fedfc0bf80a435a2b4ac9e0c92491f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:09 +0000
Subject: [PATCH 28/31] fix: plot settings without layer selection are saved
 without the token instead of an empty, unloadable one

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index fc5d194..63d8d19 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection != '':
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From ac740e602ecb00f062df664048ef91fc94344bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:11 +0000
Subject: [PATCH 29/31] fix: a group without id is saved without the token
 instead of an empty, unloadable one

---
 src/kiutils/items/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index e0c7f53..ce5429a 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -623,8 +623,9 @@ class Group():
         indents = ' '*indent
         endline = '\n' if newline else ''
         locked = f' locked' if self.locked else ''
+        id = f' (id {self.id})' if self.id != '' else ''
 
-        expression =  f'{indents}(group "{dequote(self.name)}"{locked} (id {self.id})\n'
+        expression =  f'{indents}(group "{dequote(self.name)}"{locked}{id}\n'
         expression += f'{indents}  (members\n'
         for member in self.members:
             expression += f'{indents}    {member}\n'
-- 
2.43.0


From d614a455cca6ede2c63d2ed7daf137ad5c152b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:14 +0000
Subject: [PATCH 30/31] fix: a board without version or generator is saved
 without the token instead of an empty, unloadable one

---
 src/kiutils/board.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 01e9d9c..af522d4 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -257,7 +257,10 @@ class Board():
 
         addNewLine = False
 
-        expression =  f'{indents}(kicad_pcb (version {self.version}) (generator {self.generator})\n\n'
+        version = f' (version {self.version})' if self.version != '' else ''
+        generator = f' (generator {self.generator})' if self.generator != '' else ''
+
+        expression =  f'{indents}(kicad_pcb{version}{generator}\n\n'
         expression += self.general.to_sexpr(indent+2) + '\n'
         expression += self.paper.to_sexpr(indent+2)
         if self.titleBlock is not None:
-- 
2.43.0


From 0b86d5ea801b7aaf2ade739bf4455b8b886ab0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:25 +0000
Subject: [PATCH 31/31] fix: parsing time grew with the square of white space
 at the end of a file

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 50963b9..2c60b8a 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -7,7 +7,7 @@ import re
 dbg = False
 
 term_regex = r'''(?mx)
-    \s*(?:
+    (?:
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
-- 
2.43.0

