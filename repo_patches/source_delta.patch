From fd705be3e413ce671c28dd3d41e4b7af2fe0bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 01/75] fix: invert bitmap bytes into the uint8 range when
 compiling for Windows

The compiler computed ~b - 0x100, a negative number, so every bitmap of a
Windows VFB failed to compile with an OverflowError.
---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From 2f033656719063408fe4f965ba1bfb5c782386cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 02/75] fix: compile MMKernPair entries from the structure the
 parser returns

The parser returns a dict with the glyph indices and the values, the compiler
iterated over it as if it was a list of values and failed.
---
 src/vfbLib/compilers/fl3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..18c8c5a 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -6,6 +6,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, int | list[int]]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From 17e79ccc67f6b4e1387577b6b140e8b5c7090fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 03/75] fix: round primary instance coordinates instead of
 truncating

The coordinate is stored as int(10000 * value), which is off by one for values
whose float product falls just below the integer, e.g. 0.0029.
---
 src/vfbLib/compilers/mm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From 4333c4d80feb54d91e860d17d5379310866665cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 04/75] fix: round guide angles instead of truncating

Decompiling and recompiling a slanted guide changed its angle, because the
tangent was truncated.
---
 src/vfbLib/compilers/guides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
-- 
2.43.0


From 0ee6e6a58ffe4b6fc8ab0123ff53109922d1a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 05/75] fix: write signed PCLT stroke weight and width type

They are parsed as int8, but were written as uint8, so negative values failed.
---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From 505238bdcf7cffd6787171d36a1b9c407c4188e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 06/75] fix: compute the entry header from the current data

The header was cached on first access, so when an entry was edited after the
VFB had been written once, the next write stored a stale size and the file could
not be read again.
---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From e74b2948f891b5d327a9c7ef95a576fb1fd2090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 07/75] fix: raise EOFError when an integer is read past the
 end of the data

Reading past the end returned 0. Vfb.read_stream waits for an EOFError to stop,
so a VFB without the end-of-file entry was read forever, and so was a TrueType
Info entry without its end marker.
---
 src/vfbLib/parsers/base.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..65f4134 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -58,6 +58,18 @@ class StreamReader:
         """
         return unpack(num * "d", self.stream.read(num * double_size))
 
+    def _read_int(self, size: int, signed: bool) -> int:
+        """
+        Return a little-endian integer of `size` bytes from the stream.
+
+        Raises:
+            EOFError: When the stream ends before `size` bytes could be read.
+        """
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise EOFError
+        return int.from_bytes(data, byteorder="little", signed=signed)
+
     def read_int8(self) -> int:
         """
         Return a signed 8-bit integer from the stream.
@@ -65,9 +77,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
-        )
+        return self._read_int(int8_size, signed=True)
 
     def read_int16(self) -> int:
         """
@@ -76,9 +86,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
-        )
+        return self._read_int(int16_size, signed=True)
 
     def read_int32(self) -> int:
         """
@@ -87,9 +95,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
-        )
+        return self._read_int(int32_size, signed=True)
 
     def read_str(self, size: int) -> str:
         """
@@ -134,9 +140,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
-        )
+        return self._read_int(int8_size, signed=False)
 
     def read_uint16(self) -> int:
         """
@@ -145,9 +149,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
-        )
+        return self._read_int(int16_size, signed=False)
 
     def read_uint32(self) -> int:
         """
@@ -156,9 +158,7 @@ class StreamReader:
         Returns:
             int: The integer
         """
-        return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
-        )
+        return self._read_int(int32_size, signed=False)
 
     def read_value(self, signed: bool = True) -> int:
         """
-- 
2.43.0


From bdb5e1655bed3742f8aa06fdcc3a52d2d3294a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 08/75] fix: compile entries with unknown ids

Unknown entries are decompiled to a hex string by the fallback parser, but there
was no compiler to turn it back into bytes, so the VFB could not be written.
---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..4466f97 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From 1c88045144dbc086c1575352879db455d3898313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 09/75] fix: compile the VFB before opening the output file

An error while compiling left an empty or partial file behind, and the previous
contents of the output path were lost.
---
 src/vfbLib/vfb/vfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..bc381e0 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -316,6 +316,8 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Don't truncate an existing file if the data can't be compiled
+        self.compile()
         with open(out_path, "wb") as vfb:
             self.write_bytes(vfb)
 
-- 
2.43.0


From 9bf4742fb7791db0fa52d8a7b03c32e6bdcf9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 10/75] fix: clear everything that was derived from the
 previous file

Reading another file into the same Vfb kept the glyphs, glyph order, number of
masters, etc. of the first one.
---
 src/vfbLib/vfb/vfb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index bc381e0..8bb039c 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -138,6 +138,15 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.encoding = "utf-8"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From 3e09c775d818274bed9ff0a902173b98fd2998dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 11/75] fix: compile options which have no name

Unknown export options, font options and mapping modes are decompiled to their
number, but could not be compiled from it.
---
 src/vfbLib/compilers/base.py    | 6 +++++-
 src/vfbLib/compilers/options.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..067d8a7 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -271,7 +271,11 @@ class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        # Unknown mapping modes are represented by their number as a string
+        mapping_mode = data["mapping_mode"]
+        self.write_value(
+            rev_map[mapping_mode] if mapping_mode in rev_map else int(mapping_mode)
+        )
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..d9674c8 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -11,7 +11,7 @@ if TYPE_CHECKING:
 class ExportOptionsCompiler(BaseCompiler):
     def _compile(self, data: list[str]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        options = [rev.get(k, k) for k in data]
         self.write_uint16(intListToBinary(options))
 
 
@@ -19,8 +19,8 @@ class FontOptionsCompiler(BaseCompiler):
     def _compile(self, data: "FontOptionsDict") -> None:
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
-            raw_key = rev.get(k)
-            assert raw_key is not None
+            # Unknown options are represented by their number as a string
+            raw_key = rev[k] if k in rev else int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From 8c1b0e30b49f793b9f3ac782afe5500cfca8b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 12/75] fix: keep TrueType info options which have no name

Unknown option bits were dropped when compiling. If the uppermost bit was set,
the parser never returned.
---
 src/vfbLib/compilers/truetype.py | 9 ++++-----
 src/vfbLib/parsers/truetype.py   | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..e5ddb87 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -22,10 +22,9 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
     value = intListToBinary(flags_list)
     options: tuple[str, ...]
     if options := tuple(head_flags_options["options"]):
-        option_bits = []
-        for k, v in tt_settings.items():
-            if v in options:
-                option_bits.append(k)
+        rev = {v: k for k, v in tt_settings.items()}
+        # Unknown options are represented by their bit number as a string
+        option_bits = {rev[o] if o in rev else int(o) for o in options}
 
         value += intListToBinary(option_bits) << 16
     return value
@@ -55,7 +54,7 @@ class TrueTypeInfoCompiler(BaseCompiler):
         # Convert combined flags and options dict back to a single int
         head_flags_options = convert_flags_options_to_int(data)
         self.write_uint8(0x39)
-        self.write_value(head_flags_options)
+        self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..98fcbd6 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList((value >> 16) & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From 82e925e6bd7263b8b2af292daed7ec29172d68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 13/75] fix: write class flags and anchor properties as signed
 values

They are parsed as signed values, so negative ones could not be compiled.
---
 src/vfbLib/compilers/base.py  | 10 +++++-----
 src/vfbLib/compilers/glyph.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 067d8a7..296653c 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -291,8 +291,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -301,6 +301,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 58b03c218764619790cd58a6d6845adbe4c78936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 14/75] fix: parse all block markers as hex strings

Two of them were parsed as text, but compiled from hex strings.
---
 src/vfbLib/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/constants.py b/src/vfbLib/constants.py
index 1281a67..3878e07 100644
--- a/src/vfbLib/constants.py
+++ b/src/vfbLib/constants.py
@@ -150,8 +150,8 @@ parser_classes = {
     F.EncodingDefault: ("Encoding Default", GlyphEncodingParser, GlyphEncodingCompiler),
     F.Encoding: ("Encoding", GlyphEncodingParser, GlyphEncodingCompiler),
     F.MMEncType: ("MM Encoding Type", Int16Parser, Int16Compiler),
-    F.BlockNamesEnd: ("Block Names End", StringParser, HexStringCompiler),
-    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, HexStringCompiler),
+    F.BlockNamesEnd: ("Block Names End", BaseParser, HexStringCompiler),
+    F.BlockFontInfoStart: ("Block Font Info Start", BaseParser, HexStringCompiler),
     F.font_name: ("font_name", StringParser, StringCompiler),
     F.MasterCount: ("Master Count", Int16Parser, Int16Compiler),
     F.weight_vector: ("weight_vector", DoubleListParser, DoubleListCompiler),
-- 
2.43.0


From 35656409caa55164ed023f401a00cb9799865bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 15/75] fix: keep empty glyph names

A glyph with an empty name was compiled to a glyph without a name, which can not
be decompiled any more if it has guides.
---
 src/vfbLib/compilers/glyph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index df9ce46..11fc63e 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -200,7 +200,7 @@ class GlyphCompiler(BaseCompiler):
 
     def _compile_glyph_name(self, data):
         # Glyph name
-        if not (name := data.get("name")):
+        if (name := data.get("name")) is None:
             return
 
         glyph_name = name.encode("cp1252")
-- 
2.43.0


From 28dbe008475e857bb23d0a2442214b33929890ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 16/75] fix: do not erase existing glyphs when they are
 accessed

VfbGlyph replaced the data of its entry by an empty glyph, so accessing any glyph
of a VFB through the dict methods erased all outlines.
---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From e84f4eb70871abd8fb239ff54910e96b34930a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 17/75] fix: honor the --long option of yuri

---
 src/vfbLib/value.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..ed68e81 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -46,7 +46,10 @@ def yuri():
         if args.encode:
             stream = BytesIO()
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                if args.long:
+                    write_value_long(int(value), stream, args.signed)
+                else:
+                    write_value(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From 1a9923f8ad9521edd96b00eb2208068816db25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 18/75] fix: raise when data ends inside of a value, string or
 axis graph

---
 src/vfbLib/parsers/base.py  |  8 +++++++-
 src/vfbLib/parsers/mm.py    |  6 +++---
 src/vfbLib/parsers/value.py | 14 +++++++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 65f4134..5ccafa0 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -105,12 +105,18 @@ class StreamReader:
         Args:
             size (int): The size in bytes to be converted to a string
 
+        Raises:
+            EOFError: When the stream ends before `size` bytes could be read.
+
         Returns:
             str: The string
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise EOFError
+        return data.decode(self.encoding)
 
     def read_str_with_len(self) -> str:
         """
diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..d6c04a0 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,14 +7,14 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
 
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
+
 
 class AxisMappingsCountParser(BaseParser):
     def _parse(self) -> list[int]:
diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..4a06b20 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,13 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_exactly(stream: "BufferedIOBase", size: int) -> bytes:
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("Incomplete encoded value")
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -24,6 +31,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         ValueError: When the byte that was read from the stream is < 0x20.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
+        ValueError: When the stream ends inside of the encoded value.
 
     Returns:
         int: The decoded value.
@@ -41,13 +49,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +63,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_exactly(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0


From f9a0e6a39ad374a15b9085679befcd60e1e1177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 19/75] fix: reject impossible master counts instead of
 exhausting memory

---
 src/vfbLib/parsers/base.py   | 20 ++++++++++++++++++++
 src/vfbLib/parsers/glyph.py  |  5 ++++-
 src/vfbLib/parsers/guides.py |  5 +++--
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 5ccafa0..dae0685 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -25,6 +25,26 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+# 4 axes with 2 masters each
+MAX_MASTERS = 16
+
+
+def check_num_masters(num_masters: int, num_items: int) -> None:
+    """
+    Reject impossible master counts from damaged files, which would make the parsers
+    loop or allocate memory without reading any data.
+
+    Args:
+        num_masters (int): The number of masters.
+        num_items (int): The number of items which contain data for each master.
+
+    Raises:
+        ValueError: When the number of masters is invalid.
+    """
+    if num_masters > MAX_MASTERS or (num_items > 0 and num_masters < 1):
+        raise ValueError(f"Invalid number of masters: {num_masters}")
+
+
 class StreamReader:
     """
     Base class that reads values from the input stream.
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..c83020f 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -7,7 +7,7 @@ from fontTools.ttLib.tables.ttProgram import Program
 
 from vfbLib import DIRECTIONS, gdef_class_names, replace_types
 from vfbLib.helpers import hexStr
-from vfbLib.parsers.base import BaseParser
+from vfbLib.parsers.base import BaseParser, check_num_masters
 from vfbLib.parsers.guides import parse_guides
 from vfbLib.truetype import TT_COMMANDS
 from vfbLib.typing import (
@@ -65,6 +65,7 @@ class GlyphAnchorsParser(BaseParser):
         anchors = []
         num_anchors = self.read_value()
         num_masters = self.read_value()
+        check_num_masters(num_masters, num_anchors)
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
             for _ in range(num_masters):
@@ -321,6 +322,7 @@ class GlyphParser(BaseParser):
         hints = MMHintsDict(v=[], h=[])
         for direction in DIRECTIONS:
             num_hints = self.read_value()
+            check_num_masters(self.num_masters, num_hints)
             for _ in range(num_hints):
                 master_hints = []
                 for _ in range(self.num_masters):
@@ -385,6 +387,7 @@ class GlyphParser(BaseParser):
         # glyphdata["num_node_values"] = num_node_values
 
         num_nodes = self.read_value()
+        check_num_masters(num_masters, num_nodes)
         segments: list[MMNode] = []
         x = [0 for _ in range(num_masters)]
         y = [0 for _ in range(num_masters)]
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..bfc2d2a 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -3,7 +3,7 @@ from math import atan2, degrees
 from typing import TYPE_CHECKING
 
 from vfbLib import DIRECTIONS
-from vfbLib.parsers.base import BaseParser
+from vfbLib.parsers.base import BaseParser, check_num_masters
 from vfbLib.typing import GuideDict, GuidePropertiesDict, GuidePropertyDict
 from vfbLib.value import read_value
 
@@ -39,8 +39,9 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
-        guides[direction] = [[] for _ in range(num_guides)]
+        check_num_masters(num_masters, num_guides)
         for i in range(num_guides):
+            guides[direction].append([])
             for _ in range(num_masters):
                 try:
                     pos = read_value(stream)
-- 
2.43.0


From 67591e9d146e1c514031a47c86ee6d0b3a827c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 20/75] fix: don't drop an incomplete gasp range

---
 src/vfbLib/parsers/truetype.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 98fcbd6..68e4cde 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -1,5 +1,5 @@
 import logging
-from struct import unpack
+from struct import iter_unpack
 from typing import TYPE_CHECKING
 
 from vfbLib import tt_settings, ttinfo_names
@@ -35,15 +35,13 @@ class GaspParser(BaseParser):
     """
 
     def _parse(self) -> "GaspList":
-        data = self.stream.read()
-        gasp = unpack(f"<{len(data) // 2}H", data)
-        it = iter(gasp)
+        # An incomplete range at the end is an error
         return [
             {
                 "maxPpem": a,
                 "flags": b,
             }
-            for a, b in zip(it, it)
+            for a, b in iter_unpack("<2H", self.stream.read())
         ]
 
 
-- 
2.43.0


From f244fe5058bb4e7220fe3a300b1387c3b3c5cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 21/75] fix: compile glyph guides for the masters of the glyph

---
 src/vfbLib/compilers/glyph.py  | 3 ++-
 src/vfbLib/compilers/guides.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 11fc63e..6983ab6 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -224,7 +224,8 @@ class GlyphCompiler(BaseCompiler):
         gc = GuidesCompiler()
         gc.stream = self.stream
         gc.vfb = self.vfb
-        gc._compile(guides)
+        # A glyph can have a different number of masters than the font
+        gc._compile_guides(guides, self.num_masters)
 
     def _compile_hints(self, data):
         # PostScript hints
diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 70d8fac..3515c03 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -11,11 +11,14 @@ if TYPE_CHECKING:
 class GuidesCompiler(BaseCompiler):
     def _compile(self, data: "MMGuidesDict") -> None:
         assert self.vfb is not None
+        self._compile_guides(data, self.vfb.num_masters)
+
+    def _compile_guides(self, data: "MMGuidesDict", num_masters: int) -> None:
         for direction in DIRECTIONS:
             dir_guides = data[direction]
             self.write_value(len(dir_guides))
             for guide in dir_guides:
-                for master_index in range(self.vfb.num_masters):
+                for master_index in range(num_masters):
                     self.write_value(guide[master_index]["pos"])
                     angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
-- 
2.43.0


From c054c29403093317853d020f91f2b15ac46cc7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 22/75] fix: compile anchors for the masters of the glyph

---
 src/vfbLib/compilers/glyph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 6983ab6..14cedf4 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -29,9 +29,11 @@ class GlyphAnchorsCompiler(BaseCompiler):
     def _compile(self, data: "list[MMAnchorDict]") -> None:
         assert self.vfb is not None
         self.write_value(len(data), signed=False)
-        self.write_value(self.vfb.num_masters, signed=False)
+        # A glyph can have a different number of masters than the font
+        num_masters = len(data[0]["x"]) if data else self.vfb.num_masters
+        self.write_value(num_masters, signed=False)
         for anchor in data:
-            for i in range(self.vfb.num_masters):
+            for i in range(num_masters):
                 self.write_value(anchor["x"][i])
                 self.write_value(anchor["y"][i])
 
-- 
2.43.0


From ae8d60927ed81c71972ea6f84aa30d7e9dc34e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 23/75] fix: parse feature code which consists of empty lines
 only

---
 src/vfbLib/parsers/text.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..9b63e11 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -99,10 +99,9 @@ class OpenTypeStringParser(BaseParser):
                     lines.append(line)
                 c += 1
 
-        if len(lines) > 1:
-            # Remove empty lines at the end, except one
-            while not lines[-1]:
-                lines.pop()
+        # Remove empty lines at the end, except one
+        while len(lines) > 1 and not lines[-1]:
+            lines.pop()
         lines.append("")
         return lines
 
-- 
2.43.0


From da9300a1655d39f66b2f604700d0830c2924546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 24/75] fix: keep master outlines compatible when a contour
 returns to its start in some masters only

---
 src/vfbLib/ufo/paths.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..9552e1b 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -11,7 +11,7 @@ from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
 
-    from vfbLib.typing import AnchorDict
+    from vfbLib.typing import AnchorDict, MMNode
     from vfbLib.ufo.glyph import VfbToUfoGlyph
     from vfbLib.ufo.typing import UfoComponent, UfoContour
 
@@ -138,6 +138,7 @@ class UfoMasterGlyph:
         in_qcurve = False
         if True:
             contour: "UfoContour" = []
+            start = 0
             for i, n in enumerate(mm_nodes):
                 if to_mask:
                     name: str | None = None
@@ -150,7 +151,10 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(
+                        contour, path_is_open, mm_nodes[start:i], to_mask
+                    )
+                    start = i
                     contour = [("move", smooth, name, pt)]
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
@@ -177,7 +181,7 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+            self._append_contour(contour, path_is_open, mm_nodes[start:], to_mask)
 
         if to_mask:
             # Mask has no components
@@ -314,24 +318,38 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        mm_nodes: "list[MMNode]",
+        to_mask: bool = False,
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            ct = self._flush_contour(contour, path_is_open, mm_nodes, to_mask)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self,
+        contour: "UfoContour",
+        mm_nodes: "list[MMNode]",
+        to_mask: bool = False,
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        # Look at all masters, otherwise the UFOs may end up being incompatible
+        equal_coords = all(
+            first[0] == last[0]
+            for first, last in zip(mm_nodes[0]["points"], mm_nodes[-1]["points"])
+        )
+        if equal_coords and last_type not in ("line", "qcurve"):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -356,7 +374,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        mm_nodes: "list[MMNode]",
+        to_mask: bool = False,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -364,7 +386,7 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(contour, mm_nodes, to_mask=to_mask)
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From 4e6c31b5081931b4e946f4eaf603473fd682c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 25/75] fix: don't remove hint masks and image previews from
 the source font when converting to UFO

---
 src/vfbLib/ufo/builder.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..cfd5e3b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -189,7 +189,6 @@ class VfbToUfoBuilder:
             g.mm_hints = data["hints"]
             if "hintmasks" in data["hints"]:
                 g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
@@ -217,9 +216,9 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
-        if "preview" in data["bitmap"]:
-            del data["bitmap"]["preview"]
-        self.current_glyph.lib["com.fontlab.v5.background"] = data
+        # The preview is not needed in the UFO
+        bitmap = {k: v for k, v in data["bitmap"].items() if k != "preview"}
+        self.current_glyph.lib["com.fontlab.v5.background"] = {**data, "bitmap": bitmap}
 
     def set_glyph_bitmaps(self, data: "list[GlyphBitmapDict]") -> None:
         assert self.current_glyph is not None
-- 
2.43.0


From 7d13e9858f14d68ded037263ee963d60bb8b8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:41 +0000
Subject: [PATCH 26/75] fix: keep the last glyph and its kerning apart from a
 glyph of the same name

---
 src/vfbLib/ufo/builder.py | 43 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index cfd5e3b..b4d8248 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -141,6 +141,23 @@ class VfbToUfoBuilder:
             # Jump to the next 10 axis mappings
             data = data[10:]
 
+    def add_glyph(self, glyph: VfbToUfoGlyph) -> str:
+        """
+        Add the glyph to the glyph order and return its final name, which is different
+        from the glyph's name in the VFB if that has been used by another glyph before.
+        """
+        name = glyph.name
+        assert name is not None
+        if name in self.glyph_masters:
+            i = 0
+            while f"{name}#{i}" in self.glyph_masters:
+                i += 1
+            logger.warning(f"Duplicate glyph, renamed from {name} to {name}#{i}.")
+            name = f"{name}#{i}"
+        self.glyph_masters[name] = glyph
+        self.glyphOrder.append(name)
+        return name
+
     def add_ot_class(self, data: str) -> None:
         """
         Add an OpenType class/group to the builder. VFB stores groups as strings, so
@@ -180,6 +197,7 @@ class VfbToUfoBuilder:
         g.lib = {}
         g.name = data["name"]
         g.unicodes = []
+        glyph_name = self.add_glyph(g)
 
         # MM Stuff, need to extract later
         if not self.minimal and "guides" in data:
@@ -193,8 +211,7 @@ class VfbToUfoBuilder:
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
             for Rid, values in kerning.items():
-                assert g.name is not None
-                self.mm_kerning[(g.name, Rid)] = values
+                self.mm_kerning[(glyph_name, Rid)] = values
 
         g.mm_metrics = data["metrics"]  # width and height
         g.mm_nodes = data["nodes"]
@@ -448,24 +465,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -658,10 +657,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From 55f83c8032cce8481ca7c0490a83891e36fd4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 27/75] fix: add missing master names according to the number
 of axes

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index b4d8248..8b2ba9e 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -678,7 +678,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From efc0cdf1fc2d5e2a82ff8d28d43a37caedf77feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 28/75] fix: convert the glyph note to UFO

---
 src/vfbLib/ufo/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 8b2ba9e..0f0bc3d 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -782,6 +782,9 @@ class VfbToUfoBuilder:
             if self.minimal:
                 continue
 
+            if mm_glyph.note:
+                ufo_glyph.note = mm_glyph.note
+
             # Handle mask layer
             mask_ufo_glyph = Glyph(name)
             pen = mask_ufo_glyph.getPointPen()
-- 
2.43.0


From 6487ec7d982d833956c3d695cf0692ff4c3331d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 29/75] fix: don't share the font lib between master UFOs

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 0f0bc3d..3f3c24f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -755,7 +755,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From 5229fc6cd6faa65af135c4a685a52ea71d37369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 30/75] fix: don't add the axis labels again each time the
 designspace is built

---
 src/vfbLib/ufo/builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3f3c24f..711bcc7 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -934,13 +934,13 @@ class VfbToUfoBuilder:
         construct the UFO paths assigned to the source descriptors.
         """
         ds = DesignSpaceDocument()
-        ds.axes = self.axes
+        ds.axes = deepcopy(self.axes)
 
         # Add labels
         if self.axis_count == 1:
             # Only support the simple case here
             for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
+                ds.axes[0].axisLabels.append(
                     AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
                 )
         else:
-- 
2.43.0


From 8da45139055b94dff6dd38f9f6403bc1ccaa5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 31/75] fix: give each TrueType stem its own name, and use it
 in the glyph commands

---
 src/vfbLib/ufo/builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 711bcc7..93b8721 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -401,19 +401,23 @@ class VfbToUfoBuilder:
             direction_stems = self.stems[d]
             for stem in direction_stems:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
                 if name in lib:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in lib:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
-                lib[name] = stem
+                # The glyph commands refer to the final name
+                stem["name"] = name
+                lib[name] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
@@ -658,9 +662,9 @@ class VfbToUfoBuilder:
                     logger.info(f"Unhandled entry: {k}")
 
         self.lib["public.glyphOrder"] = self.glyphOrder
-        self.build_tt_glyph_lib()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
+        self.build_tt_glyph_lib()
         self.build_tt_zones_lib()
         if not self.lib[TT_LIB_KEY]:
             del self.lib[TT_LIB_KEY]
-- 
2.43.0


From 4769a337366c318502b6325177f21e2083849ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 32/75] fix: keep empty comments in the feature code

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..4bf16d3 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -23,7 +23,7 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             if enum is None:
                 enum = ""
             code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
+            if comment is not None:
                 code += f"#{comment}"
             features.append(code)
         else:
-- 
2.43.0


From 3171868d46f17e55fd0c222dbc975a7d817d4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 33/75] fix: keep the kerning groups in the UFO when they are
 also added to the features

---
 src/vfbLib/ufo/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 93b8721..d1117e0 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -859,7 +859,9 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                # The kerning still needs the kerning groups
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From d747ced502200da100f954cc1594261bd66c45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 34/75] fix: omit groups which become empty when missing glyphs
 are skipped

---
 src/vfbLib/ufo/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..34cdcd6 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -100,6 +100,9 @@ def transform_groups(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
         num_missing = len(missing)
+        if missing and not glyphs:
+            # All glyphs were skipped
+            continue
 
         key_glyph = None
         for key_glyph_candidate in group_key_glyphs:
-- 
2.43.0


From 41816c4bc7aeabf9396f5ea977098921b0f6f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 35/75] fix: prefer the bigger pixel value when TrueType stem
 rounding ppms are equal

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..03dced0 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From 395fc053db0493cc26f802fb3ac0a70d1a106111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 36/75] fix: export TrueType hinting with stem ppms for 1 pixel

---
 src/vfbLib/tth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..cf6e264 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                rounds = target[direction].setdefault(stem_index, {})
+                rounds[1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 05e90122091f88434995d0abdf12e98e08b402ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 37/75] fix: export TrueType hinting of fonts without stems,
 zones, or zone deltas

---
 src/vfbLib/tth.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index cf6e264..d7e41a8 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -314,22 +314,20 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        direction_data = data.get(direction, {})
+        for stem_index, stem in enumerate(font.get("stems", {}).get(direction, [])):
+            stem["round"].update(direction_data.get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -342,7 +340,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -356,5 +354,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From 18a4bb5c4933c11e2ff22d2e16d4ec288d9cbd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 38/75] fix: check all output files before writing any, also
 for JSON

---
 src/vfbLib/ufo/builder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index d1117e0..7e38278 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -910,6 +910,16 @@ class VfbToUfoBuilder:
         # Build UFOs and DesignSpace
         ufos, ds = self.get_ufos_designspace(out_path, silent)
 
+        ds_path = out_path.with_suffix(".designspace")
+        if not overwrite:
+            # Check before anything is written
+            paths = [self.get_master_path(out_path, i) for i in range(len(ufos))]
+            if ds:
+                paths.append(ds_path)
+            for path in paths:
+                if path.exists():
+                    raise FileExistsError(str(path))
+
         # Write the master UFOs
         strct = UFOFileStructure.ZIP if ufoz else None
         indent = None if ufoz else 2
@@ -926,10 +936,6 @@ class VfbToUfoBuilder:
 
         # Write the Designspace
         if ds:
-            ds_path = out_path.with_suffix(".designspace")
-            if ds_path.exists():
-                if not overwrite:
-                    raise FileExistsError(str(ds_path))
             if not silent:
                 print(f"Writing designspace: {ds_path}")
             ds.write(str(ds_path))
-- 
2.43.0


From 7e63b92ace90c51e1f3bb8cc2a35f0c8f709081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 39/75] fix: use the output path of the command line

---
 src/vfbLib/cmdline.py |  6 ++++--
 src/vfbLib/cu2qu.py   | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..ed9b329 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -224,10 +224,12 @@ def vfb2ufo():
         suffix = ".ufo"
         if args.zip and not args.json:
             suffix += "z"
-        if args.path:
-            out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        if args.outputpath:
+            out_path = Path(args.outputpath)
         else:
             out_path = vfb_path.with_suffix(suffix)
+        if args.path:
+            out_path = Path(args.path[0]) / out_path.name
         vfb.decompile()
         builder = VfbToUfoBuilder(
             vfb,
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..22b1a1b 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -78,12 +78,14 @@ def vfbcu2qu():
             print("File was not modified.")
             return
 
-        suffix = ".qu.vfb"
-        if args.path:
-            suffix = ".vfb"
-            out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        if args.outputpath:
+            out_path = Path(args.outputpath)
+            if args.path:
+                out_path = Path(args.path[0]) / out_path.name
+        elif args.path:
+            out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(".vfb")
         else:
-            out_path = vfb_path.with_suffix(suffix)
+            out_path = vfb_path.with_suffix(".qu.vfb")
         if out_path.exists():
             if not args.force_overwrite:
                 print(
-- 
2.43.0


From a706459746302afc41b7c6d743914a35455cf3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:11 +0000
Subject: [PATCH 40/75] fix: draw the last quadratic curve of a path to its own
 starting point

---
 src/vfbLib/vfb/glyph.py | 42 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..18d55ef 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -208,35 +208,38 @@ class VfbGlyph:
 
         path_is_open = False
         in_path = False
-        in_qcurve = False
+        start = None
         qcurve = []
 
+        def end_path() -> None:
+            if qcurve:
+                # The last curve ends at the starting point of its own path
+                if path_is_open:
+                    pen.qCurveTo(*qcurve)
+                else:
+                    pen.qCurveTo(*qcurve, start)
+                qcurve.clear()
+            if path_is_open:
+                pen.endPath()
+            else:
+                pen.closePath()
+
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
             flags = n.get("flags", 0)
             pt = n["points"][self.master_index][0]
             if node_type == "move":
-                if in_qcurve:
-                    qcurve.append(pt)
-                    pen.qCurveTo(*qcurve)
                 if in_path:
-                    if path_is_open:
-                        pen.endPath()
-                    else:
-                        pen.closePath()
-                    in_path = False
-                in_qcurve = False
-                qcurve = []
+                    end_path()
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
             elif node_type == "line":
-                if in_qcurve:
-                    qcurve.append(pt)
-                    pen.qCurveTo(*qcurve)
-                    in_qcurve = False
-                    qcurve = []
+                if qcurve:
+                    pen.qCurveTo(*qcurve, pt)
+                    qcurve.clear()
                 else:
                     pen.lineTo(pt)
             elif node_type == "curve":
@@ -244,16 +247,11 @@ class VfbGlyph:
                 pt, c1, c2 = n["points"][self.master_index]
                 pen.curveTo(c1, c2, pt)
             elif node_type == "qcurve":
-                if not in_qcurve:
-                    in_qcurve = True
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
         if in_path:
-            if path_is_open:
-                pen.endPath()
-            else:
-                pen.closePath()
+            end_path()
 
         for c in glyph.get("components", []):
             baseGlyphName = self._parent.glyph_order[c["gid"]]
-- 
2.43.0


From abefd9101e0d1c7fc7ea0ab5f179488e59ff7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 41/75] fix: draw closed paths as closed onto a point pen

---
 src/vfbLib/vfb/glyph.py | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 18d55ef..a3d1296 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -290,39 +290,45 @@ class VfbGlyph:
 
         glyph = self.entry.data
 
-        in_path = False
-        in_qcurve = False
+        path: list[tuple[tuple[int, int], str | None]] = []
+        path_is_open = False
+
+        def end_path() -> None:
+            if not path:
+                return
+
+            if not path_is_open and len(path) > 1:
+                # Only open paths have a "move" point
+                pt, _ = path[0]
+                path[0] = (pt, "qcurve" if path[-1][1] is None else "line")
+            pen.beginPath()
+            for pt, segment_type in path:
+                pen.addPoint(pt, segment_type)
+            pen.endPath()
+            path.clear()
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
+            pts = n["points"][self.master_index]
             if node_type == "move":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                if in_path:
-                    pen.endPath()
-                pen.beginPath()
-                in_path = True
-                pen.addPoint(n["points"][self.master_index][0], "move")
+                end_path()
+                path.append((pts[0], "move"))
+                path_is_open = bool(n.get("flags", 0) & 8)
             elif node_type == "line":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
+                if path and path[-1][1] is None:
+                    path.append((pts[0], "qcurve"))
                 else:
-                    pen.addPoint(n["points"][self.master_index][0], "line")
+                    path.append((pts[0], "line"))
             elif node_type == "curve":
-                pt3, pt1, pt2 = n["points"][self.master_index]
-                pen.addPoint(pt1, None)
-                pen.addPoint(pt2, None)
-                pen.addPoint(pt3, "curve")
+                pt3, pt1, pt2 = pts
+                path.append((pt1, None))
+                path.append((pt2, None))
+                path.append((pt3, "curve"))
             elif node_type == "qcurve":
-                if not in_qcurve:
-                    in_qcurve = True
-                pen.addPoint(n["points"][self.master_index][0], None)
+                path.append((pts[0], None))
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
-        if in_path:
-            pen.endPath()
+        end_path()
 
         for c in glyph.get("components", []):
             baseGlyphName = self._parent.glyph_order[c["gid"]]
-- 
2.43.0


From a0739ab011775fbe1e311586be5b855240909579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 42/75] fix: always draw the current outlines of the glyph's
 master

---
 src/vfbLib/vfb/glyph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index a3d1296..f37b6f8 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -107,7 +107,7 @@ class VfbGlyph:
         self._glyph = UfoMasterGlyph(
             mm_glyph=_mm_glyph,
             glyph_order=self._parent.glyph_order,
-            master_index=self._parent.master_index,
+            master_index=self.master_index,
         )
         self._glyph.build()
 
@@ -272,8 +272,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # The outlines may have changed since the last drawing
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -443,8 +443,8 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # The outlines may have changed since the last drawing
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From f73a0d3718c2c80b050206cdf0fb5d302eba0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 43/75] fix: know the glyph's name before drawing it

---
 src/vfbLib/vfb/glyph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index f37b6f8..7ca4b2c 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -51,12 +50,12 @@ class VfbGlyph:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if self.entry.data is None:
             return None
 
-        return self._glyph.name
+        return self.entry.data["name"]
 
     def clearContours(self):
         try:
@@ -383,12 +382,12 @@ class VfbGlyphMaster:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if self.entry.data is None:
             return None
 
-        return self._glyph.name
+        return self.entry.data["name"]
 
     def _copy_to_ufo_glyph(self, master_index):
         """
-- 
2.43.0


From 506b8768c44dfc61bcdecd5663c4cfff4b8a1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 44/75] fix: allow drawing into any master first, and don't
 merge masters with different numbers of nodes

---
 src/vfbLib/compilers/glyph.py | 2 ++
 src/vfbLib/vfb/pens.py        | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 14cedf4..786815d 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -88,6 +88,8 @@ class GlyphCompiler(BaseCompiler):
             # See if there is any data to merge
             if "nodes" in master_data:
                 assert "nodes" in data
+                if len(master_data["nodes"]) != len(data["nodes"]):
+                    raise ValueError("The outlines of the masters are incompatible.")
                 for i, tgt in enumerate(data["nodes"]):
                     src = master_data["nodes"][i]
                     for key in ("type", "flags"):
diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From fe7389f9b035a3db61c82a7e26bf6f46cfe0aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 45/75] fix: glyphs which have not been decompiled don't know
 their name

---
 src/vfbLib/vfb/glyph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 7ca4b2c..1d57555 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -52,7 +52,7 @@ class VfbGlyph:
 
     @property
     def name(self) -> str | None:
-        if self.entry.data is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
         return self.entry.data["name"]
@@ -384,7 +384,7 @@ class VfbGlyphMaster:
 
     @property
     def name(self) -> str | None:
-        if self.entry.data is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
         return self.entry.data["name"]
-- 
2.43.0


From 3e0069948651b1c6d5709766e0b6783a52dccccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 46/75] fix: rename the point tags of PostScript hint sets
 along with the points

---
 src/vfbLib/ufo/paths.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 9552e1b..a5c9473 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from vfbLib.ufo.guides import apply_guide_properties, get_master_guides
 from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import set_tth_lib
-from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
+from vfbLib.ufo.vfb2ufo import PS_GLYPH_LIB_KEY, TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
@@ -273,10 +273,25 @@ class UfoMasterGlyph:
         """
         Rename the ps-hinted point labels according to the supplied rename_dict.
         """
-        if not self.rename_points:
+        if not self.rename_points or PS_GLYPH_LIB_KEY not in self.lib:
             return
 
-        # FIXME
+        hint_sets = self.lib[PS_GLYPH_LIB_KEY]["hintSetList"]
+        tags = [hint_set["pointTag"] for hint_set in hint_sets]
+        replaced = {self.rename_points[t] for t in tags if t in self.rename_points}
+        result = []
+        for hint_set in hint_sets:
+            tag = hint_set["pointTag"]
+            if tag in self.rename_points:
+                hint_set["pointTag"] = self.rename_points[tag]
+            elif tag in replaced:
+                # The hint set of the path's starting point is used
+                logger.warning(
+                    f"Dropping hint set for point '{tag}' in glyph '{self.name}'."
+                )
+                continue
+            result.append(hint_set)
+        self.lib[PS_GLYPH_LIB_KEY]["hintSetList"] = result
 
     def _finalize_tt_point_labels(self) -> None:
         """
-- 
2.43.0


From 726b3fad5c5adcee1fc84a1cf65e43c6fa83e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 47/75] fix: write the designspace for axes without mappings

---
 src/vfbLib/ufo/builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 7e38278..ded0f70 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -947,6 +947,11 @@ class VfbToUfoBuilder:
         """
         ds = DesignSpaceDocument()
         ds.axes = deepcopy(self.axes)
+        for axis in ds.axes:
+            if isinstance(axis, AxisDescriptor) and axis.minimum is None:
+                # No mappings, user coordinates are the same as design coordinates
+                axis.minimum = axis.default = 0
+                axis.maximum = 1000
 
         # Add labels
         if self.axis_count == 1:
-- 
2.43.0


From 97b8a3b5a1c9a1bc7be9acc44a252ed64faae34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 48/75] fix: refer to the master UFOs relative to the
 designspace file

---
 src/vfbLib/ufo/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ded0f70..d2f0afb 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -971,7 +971,8 @@ class VfbToUfoBuilder:
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                # Relative to the designspace file, which is in the same folder
+                filename=self.get_master_path(out_path, i).name,
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From 7f94440d37b4651db5f71044fca5991365c54634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 49/75] fix: rename kerning classes regardless of the number of
 spaces

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 4bf16d3..e03463b 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -14,7 +14,7 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             code = line
             comment = None
 
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
+        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) +([\S]+) +([\S]+.*)$", code):
             indent, enum, pos, L, R, value = m.groups()
             if L.startswith("@_"):
                 L = f"@public.kern1.{L[1:]}"
-- 
2.43.0


From f2ba4f07c7f2544002556354f84068473c5ab852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 50/75] fix: convert fonts with more than one colon in a class
 definition

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index d2f0afb..2110032 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -170,7 +170,7 @@ class VfbToUfoBuilder:
             logger.warning(f"Malformed OT class definition, skipping: {data}")
             return
 
-        name, contents = data.split(":")
+        name, contents = data.split(":", 1)
 
         glyphs: list[str] = []
         for glyph in contents.split(" "):
-- 
2.43.0


From 0bbf50f57643c14707344ec687d34c30e0c22e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 51/75] fix: compare lines in the HTML diff, not single
 characters

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From 6476462b95909e77ab96926143bdf84f786b2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 52/75] fix: keep TrueType commands on points that are merged
 with the start of the path

---
 src/vfbLib/ufo/glyph.py | 26 ++++++++++++++++++++++++++
 src/vfbLib/ufo/paths.py | 38 ++++++++++++++++++--------------------
 2 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 377b2be..5bd95a5 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -81,6 +81,9 @@ class VfbToUfoGlyph:
             )
             return "invalid"
 
+        if code != "PSHintReplacement":
+            index = self._get_written_index(index)
+
         if index in self.point_labels:
             # We already have a label for this point index
             return self.point_labels[index]
@@ -103,6 +106,29 @@ class VfbToUfoGlyph:
         self.point_labels[index] = label
         return label
 
+    def _get_written_index(self, index: int) -> int:
+        """
+        Return the index of the starting point if index is the last point of a path
+        that is merged with its starting point in the UFO. Otherwise, return the index.
+        """
+        nodes = self.mm_nodes
+        if not 0 <= index < len(nodes) or nodes[index]["type"] != "curve":
+            return index
+        if index + 1 < len(nodes) and nodes[index + 1]["type"] != "move":
+            return index
+        start = index
+        while start > 0 and nodes[start]["type"] != "move":
+            start -= 1
+        if nodes[start]["flags"] & 8:
+            # Open path
+            return index
+        if all(
+            first[0] == last[0]
+            for first, last in zip(nodes[start]["points"], nodes[index]["points"])
+        ):
+            return start
+        return index
+
     def set_instructions(self, instructions: list[str]) -> None:
         if not instructions:
             return
diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index a5c9473..83a05ba 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -278,18 +278,18 @@ class UfoMasterGlyph:
 
         hint_sets = self.lib[PS_GLYPH_LIB_KEY]["hintSetList"]
         tags = [hint_set["pointTag"] for hint_set in hint_sets]
-        replaced = {self.rename_points[t] for t in tags if t in self.rename_points}
         result = []
         for hint_set in hint_sets:
             tag = hint_set["pointTag"]
             if tag in self.rename_points:
-                hint_set["pointTag"] = self.rename_points[tag]
-            elif tag in replaced:
-                # The hint set of the path's starting point is used
-                logger.warning(
-                    f"Dropping hint set for point '{tag}' in glyph '{self.name}'."
-                )
-                continue
+                new_tag = self.rename_points[tag]
+                if new_tag in tags:
+                    # The hint set of the path's starting point is used
+                    logger.warning(
+                        f"Dropping hint set for point '{tag}' in glyph '{self.name}'."
+                    )
+                    continue
+                hint_set["pointTag"] = new_tag
             result.append(hint_set)
         self.lib[PS_GLYPH_LIB_KEY]["hintSetList"] = result
 
@@ -371,18 +371,16 @@ class UfoMasterGlyph:
             contour[0] = contour.pop()
             if name is not None:
                 # Keep old point name
-                if contour[0][2] is None:
-                    t, smooth, _, pt = contour[0]
-                    contour[0] = (t, smooth, name, pt)
-                else:
-                    if not to_mask:
-                        logger.warning(f"Glyph '{self.name}':")
-                        logger.warning(
-                            f"Point name conflict in {contour[0]} vs. {name} while "
-                            f"applying closepath. Not applying old name ({name})"
-                        )
-                        # Note the old and new name so the labels can be updated
-                        self.rename_points[name] = contour[0][2]
+                t, smooth, last_name, pt = contour[0]
+                contour[0] = (t, smooth, name, pt)
+                if last_name is not None and not to_mask:
+                    logger.warning(f"Glyph '{self.name}':")
+                    logger.warning(
+                        f"Point name conflict in {contour[0]} vs. {last_name} while "
+                        f"applying closepath. Not applying name {last_name}"
+                    )
+                    # Note the old and new name so the labels can be updated
+                    self.rename_points[last_name] = name
 
         else:
             _, smooth, name, pt = contour[0]
-- 
2.43.0


From 6f95cd6ea51efe2a4f93a938c6cbec5560bd1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 53/75] fix: give the points the same names in all masters

---
 src/vfbLib/ufo/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 2110032..3662de6 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -874,6 +874,12 @@ class VfbToUfoBuilder:
         if self.features_code:
             self.ufo_features.text += f"\n\n{self.features_code}"
 
+        if self.include_ps_hints:
+            # Assign all point labels before the first master is extracted, because
+            # composites add labels to the glyphs they refer to.
+            for mm_glyph in self.glyph_masters.values():
+                UfoMasterGlyph(mm_glyph, self.glyphOrder, 0)._extract_master_ps_hints()
+
         ufo_masters = []
         logger.info(f"Extracting {len(self.masters)} master UFOs...")
         for i in range(len(self.masters)):
-- 
2.43.0


From 21e8055c8f153bac18a82c525792cfc5df3699fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 54/75] fix: fonts flagged regular and italic got an invalid
 style map style name, so their UFO could not be written

---
 src/vfbLib/ufo/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..0251258 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -266,7 +266,7 @@ class VfbToUfoInfo(Info):
         # Construct the style map style name
 
         name_parts = []
-        if 6 in intlist:
+        if 6 in intlist and 0 not in intlist:
             name_parts.append("regular")
         elif 5 in intlist:
             name_parts.append("bold")
-- 
2.43.0


From 4fa7964346f57f550acd1d6f3e058d1110ff314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 55/75] fix: don't merge drawn masters again over later changes

---
 src/vfbLib/vfb/entry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 4466f97..8eda813 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -247,6 +247,8 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        # Later changes of the merged data must not be undone by merging again
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From cf91917576e28af1cf85e405fe283c9f9546b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 56/75] fix: decompile a compiled glyph before drawing into it

---
 src/vfbLib/vfb/glyph.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 1d57555..9826dd1 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -354,11 +354,10 @@ class VfbGlyph:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.empty()
-            else:
-                self.decompile()
+            # Make an empty glyph
+            self.empty()
+        else:
+            self.decompile()
         return VfbGlyphPointPen(self, self._parent)
 
 
@@ -463,9 +462,8 @@ class VfbGlyphMaster:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.glyph.empty()
-            else:
-                self.entry.decompile()
+            # Make an empty glyph
+            self.glyph.empty()
+        else:
+            self.entry.decompile()
         return VfbGlyphPointPen(self, self.glyph._parent)
-- 
2.43.0


From b1510fdf6feb65c278817f0f0c1929637f68e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 57/75] fix: report the units per em of the current file

---
 src/vfbLib/vfb/info.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/info.py b/src/vfbLib/vfb/info.py
index f7fa52a..8e65aee 100644
--- a/src/vfbLib/vfb/info.py
+++ b/src/vfbLib/vfb/info.py
@@ -1,4 +1,3 @@
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -9,7 +8,7 @@ class VfbInfo:
     def __init__(self, vfb: "Vfb") -> None:
         self.parent = vfb
 
-    @cached_property
+    @property
     def unitsPerEm(self) -> int:
         for entry in self.parent.entries:
             if entry.key == "upm":
-- 
2.43.0


From f64d1d8e2f9f6f9a5698f99f8824b1d3c494e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 58/75] fix: don't merge masters with different numbers of
 components

---
 src/vfbLib/compilers/glyph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 786815d..988295f 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -98,6 +98,8 @@ class GlyphCompiler(BaseCompiler):
 
             if "components" in master_data:
                 assert "components" in data
+                if len(master_data["components"]) != len(data["components"]):
+                    raise ValueError("The components of the masters are incompatible.")
                 for i, tgt in enumerate(data["components"]):
                     src = master_data["components"][i]
                     for key in ("gid",):
-- 
2.43.0


From ca1f54934c5672ee28b531209629460b66bcf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 59/75] fix: draw paths which begin with an off-curve point
 into the glyph

---
 src/vfbLib/vfb/pens.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index dd17bb7..c9c6bdf 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -47,9 +47,31 @@ class VfbGlyphPointPen(AbstractPointPen):
         if self.currentPath is None:
             raise TypeError
 
+        if self.currentPath and self.currentPath[0]["type"] != "move":
+            self._start_on_curve()
+
         self.target["nodes"].extend(self.currentPath)
         self.currentPath = None
 
+    def _start_on_curve(self) -> None:
+        """
+        Let a path that was begun with an off-curve point start with an on-curve point.
+        """
+        path = self.currentPath
+        for i, node in enumerate(path):
+            if node["type"] != "qcurve":
+                node["type"] = "move"
+                self.currentPath = path[i:] + path[:i]
+                return
+
+        # There are only off-curve points, add the implied point between the last and
+        # the first one
+        points = []
+        for last, first in zip(path[-1]["points"], path[0]["points"]):
+            (x0, y0), (x1, y1) = last[0], first[0]
+            points.append([(round((x0 + x1) / 2), round((y0 + y1) / 2))])
+        path.insert(0, {"type": "move", "flags": 0, "points": points})
+
     def addPoint(
         self,
         pt: tuple[float, float],
@@ -80,8 +102,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             if segmentType == "move":  # Open path
                 flags += 8
 
-            # VFB first node always has type "move"
-            node["type"] = "move"
+            # VFB first node always has type "move", see _start_on_curve() for paths
+            # which begin with an off-curve point
+            node["type"] = "qcurve" if segmentType is None else "move"
 
         else:
             # During path
-- 
2.43.0


From c0ef9fa7f788ec14d6acacdd63a96e268a4d2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 60/75] fix: don't print reading times in silent mode

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index ed9b329..424e78d 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 1824b11cf9ecd24eabab6b6492299306aa4ee883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 61/75] fix: keep feature code without features when splitting
 it

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 9b63e11..8445187 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -80,8 +80,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From 6fc9145598346a1c26db435709a7d1c78908d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 62/75] fix: export TrueType stems without, or with fewer, stem
 ppms

---
 src/vfbLib/ufo/builder.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3662de6..a13d7bd 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -294,6 +294,18 @@ class VfbToUfoBuilder:
                 stem: TUfoStemPPMDict = {"stem": index, "round": rounds}
                 self.stem_ppms[d].append(stem)
 
+    def get_tt_stem_ppms(self, direction: str, index: int) -> TUfoStemPPMDict:
+        """Get the TT stem PPMs of a stem, which may be missing from the VFB.
+
+        Args:
+            direction (str): "ttStemsH" or "ttStemsV".
+            index (int): The index of the stem.
+        """
+        stems = self.stem_ppms[direction]
+        while len(stems) <= index:
+            stems.append({"stem": len(stems), "round": {}})
+        return stems[index]
+
     def set_tt_stem_ppms_1(self, data: TUfoStemPPMsDict) -> None:
         """Set the TT stem PPMs for stem width of 1 pixel.
 
@@ -303,7 +315,7 @@ class VfbToUfoBuilder:
         for d in ("ttStemsH", "ttStemsV"):
             direction_stems = data[d]
             for ds in direction_stems:
-                round_dict = self.stem_ppms[d][ds["stem"]]["round"]
+                round_dict = self.get_tt_stem_ppms(d, ds["stem"])["round"]
                 ppm = 1
                 ppm1 = str(ds["round"][ppm])
                 if ppm1 in round_dict:
@@ -326,7 +338,7 @@ class VfbToUfoBuilder:
                 rv = str(r[rk])
 
                 # Take the other rounding ppm values (2-5) from self.stem_ppms
-                stem_ppms = self.stem_ppms[d][i]
+                stem_ppms = self.get_tt_stem_ppms(d, i)
                 assert i == stem_ppms["stem"]
 
                 # Build the final stem dict
-- 
2.43.0


From c012a053f04244550f4cf879716ac9c197eeee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 63/75] fix: allow access to glyphs after the file was written

---
 src/vfbLib/vfb/glyph.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 9826dd1..e14f694 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -21,6 +21,14 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+def _assure_decompiled(entry: "VfbEntry") -> None:
+    """
+    Decompile the entry if it is compiled, e.g. because the file has been written.
+    """
+    if isinstance(entry.data, bytes):
+        entry.decompile()
+
+
 class VfbGlyph:
     def __init__(self, entry: "VfbEntry", parent: "Vfb | VfbMaster") -> None:
         self.entry = entry
@@ -44,6 +52,7 @@ class VfbGlyph:
         Returns:
             int: The number of paths, or contours.
         """
+        _assure_decompiled(self.entry)
         if not self.entry.data["nodes"]:
             return 0
 
@@ -52,12 +61,14 @@ class VfbGlyph:
 
     @property
     def name(self) -> str | None:
-        if not isinstance(self.entry.data, dict):
+        if self.entry.data is None:
             return None
 
+        _assure_decompiled(self.entry)
         return self.entry.data["name"]
 
     def clearContours(self):
+        _assure_decompiled(self.entry)
         try:
             del self.entry.data["hints"]
         except KeyError:
@@ -87,6 +98,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        _assure_decompiled(self.entry)
         _mm_glyph = VfbToUfoGlyph()
         _mm_glyph.name = self.entry.data["name"]
 
@@ -112,6 +124,7 @@ class VfbGlyph:
 
     def resolve_hint_sets(self) -> "dict[int, list[HintTuple]]":
         hint_sets = {}
+        _assure_decompiled(self.entry)
         hints = self.resolve_hints()
         hints_entry = self.entry.data.get("hints", {})
         hintmasks = hints_entry.get("hintmasks", [])
@@ -139,6 +152,7 @@ class VfbGlyph:
     def resolve_hints(self) -> "dict[str, list[HintTuple]]":
         hints: "dict[str, list[HintTuple]]" = {"h": [], "v": []}
 
+        _assure_decompiled(self.entry)
         mm_hints = self.entry.data.get("hints", {"h": [], "v": []})
 
         # Hints
@@ -164,6 +178,8 @@ class VfbGlyph:
         if self.links_entry is None:
             return hints
 
+        _assure_decompiled(self.entry)
+        _assure_decompiled(self.links_entry)
         links = self.links_entry.data
         assert isinstance(links, dict)
         if not (links["x"] or links["y"]):
@@ -203,6 +219,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        _assure_decompiled(self.entry)
         glyph = self.entry.data
 
         path_is_open = False
@@ -287,6 +304,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        _assure_decompiled(self.entry)
         glyph = self.entry.data
 
         path: list[tuple[tuple[int, int], str | None]] = []
@@ -375,6 +393,7 @@ class VfbGlyphMaster:
         Returns:
             int: The number of paths, or contours.
         """
+        _assure_decompiled(self.entry)
         if not self.entry.data["nodes"]:
             return 0
 
@@ -383,9 +402,10 @@ class VfbGlyphMaster:
 
     @property
     def name(self) -> str | None:
-        if not isinstance(self.entry.data, dict):
+        if self.entry.data is None:
             return None
 
+        _assure_decompiled(self.entry)
         return self.entry.data["name"]
 
     def _copy_to_ufo_glyph(self, master_index):
@@ -396,6 +416,7 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
+        _assure_decompiled(self.entry)
         _mm_glyph = VfbToUfoGlyph()
         _mm_glyph.name = self.entry.data["name"]
 
@@ -420,6 +441,7 @@ class VfbGlyphMaster:
         self._glyph.build()
 
     def clearContours(self):
+        _assure_decompiled(self.entry)
         if self.master_index == 0:
             target = self.entry.data
         else:
-- 
2.43.0


From 8af2ae63a2c2382dc349dc2b0a8e5a9f3f529cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 64/75] fix: don't report glyphs as missing after a decompile
 error

---
 src/vfbLib/vfb/vfb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 8bb039c..2d9034e 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -157,6 +157,16 @@ class Vfb:
             e.compile()
 
     def _decompile_glyphs(self) -> None:
+        # If any of the entries can't be decompiled, don't keep an incomplete list
+        for entry in self.entries:
+            if entry.id in (
+                G.Glyph,
+                G.Links,
+                G.HintingOptions,
+                F.PostScriptHintingOptions,
+            ):
+                entry.decompile()
+
         name = None
         for entry in self.entries:
             match entry.id:
-- 
2.43.0


From 923dfecb868a917bfe0696ae54aa3c2343319ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 65/75] fix: rename kerning classes after tabs, and after enum
 with several spaces

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index e03463b..7d40987 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -14,7 +14,7 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
             code = line
             comment = None
 
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) +([\S]+) +([\S]+.*)$", code):
+        if m := search(r"^([\t\s]*)(enum\s+)?(pos)\s+([\S]+)\s+([\S]+)\s+([\S]+.*)$", code):
             indent, enum, pos, L, R, value = m.groups()
             if L.startswith("@_"):
                 L = f"@public.kern1.{L[1:]}"
-- 
2.43.0


From 14ec90edbc07b44d892207a0493000b4459b53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 66/75] fix: links to missing TrueType stems don't stop the
 conversion

---
 src/vfbLib/ufo/tth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 03dced0..316895e 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -142,6 +142,12 @@ class TTGlyphHints:
                         d["round"] = True
                     elif stem == -1:
                         pass
+                    elif not self.stems["ttStems" + code[-1]]:
+                        logger.warning(
+                            f"Stem index out of range in {self.glyph.name}: {stem} (no "
+                            "existing stems)."
+                        )
+                        logger.warning(f"{code}: {params}")
                     else:
                         stem_dir = "ttStemsH" if code.endswith("H") else "ttStemsV"
                         # Stems are indexed separately for H and V directions
-- 
2.43.0


From 86e8430396044ee4d82765a12cc0e1e664084c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 67/75] fix: the glyph order is known before the first look-up

---
 src/vfbLib/vfb/vfb.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 2d9034e..2ca0bfa 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -89,7 +89,7 @@ class Vfb:
 
         # We need some minimal API to make pen access work ...
         self._glyphs: dict[str, VfbGlyph] = {}
-        self.glyph_order: list[str] = []
+        self._glyph_order: list[str] = []
 
         # cu2qu accesses the info and lib ...
         self.info = VfbInfo(vfb=self)
@@ -111,6 +111,15 @@ class Vfb:
             self.header: VfbHeader = VfbHeader()
             self.entries: list[VfbEntry] = []
 
+    @property
+    def glyph_order(self) -> list[str]:
+        """
+        The names of the glyphs, in the order of the VFB.
+        """
+        if not self._glyphs:
+            self._decompile_glyphs()
+        return self._glyph_order
+
     def add_entry(self, entry: VfbEntry) -> None:
         """Add an entry to the Vfb. Also sets the parent of the entry to the Vfb.
 
@@ -139,7 +148,7 @@ class Vfb:
         self.header = VfbHeader()
         self.entries = []
         self._glyphs = {}
-        self.glyph_order = []
+        self._glyph_order = []
         self.num_masters = 0
         self.ttStemsV_count = 0
         self.ttStemsH_count = 0
@@ -181,7 +190,7 @@ class Vfb:
                             i += 1
                         name = f"{name}#{i}"
                     self._glyphs[name] = glyph
-                    self.glyph_order.append(name)
+                    self._glyph_order.append(name)
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
-- 
2.43.0


From 8d56970864b4f16fcd1d954fa8725e8c220e4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 68/75] fix: glyphs that are added after a look-up are found

---
 src/vfbLib/vfb/vfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 2ca0bfa..6d2d214 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -128,6 +128,9 @@ class Vfb:
         """
         entry.vfb = self
         self.entries.append(entry)
+        # The glyphs must be looked up again
+        self._glyphs = {}
+        self._glyph_order = []
 
     def as_dict(self) -> "VfbDict":
         """
-- 
2.43.0


From dfaeb28f3e33501b759c3497de679f86035f271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 69/75] fix: vfb2tth: keep the hints of glyphs with duplicate
 names

---
 src/vfbLib/tth.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index d7e41a8..f7e4f69 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -190,7 +190,15 @@ def extract_glyph_hints(
             stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
-        target[data["name"]] = tr
+        name = data["name"]
+        # Make glyph names unique
+        if name in target:
+            print(f"Duplicate glyph name: {name}")
+            i = 1
+            while f"{name}#{i}" in target:
+                i += 1
+            name = f"{name}#{i}"
+        target[name] = tr
 
 
 def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
-- 
2.43.0


From 3d081c6864c7ad3101c4d8984aa054b61ab8602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 70/75] fix: encode the TrueType instructions as UTF-8 before
 base64

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 83a05ba..57160dc 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -260,7 +260,7 @@ class UfoMasterGlyph:
         if encode_data_base64 and TT_GLYPH_LIB_KEY in self.lib:
             data = self.lib[TT_GLYPH_LIB_KEY]
             if not isinstance(data, bytes):
-                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("ascii"))
+                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("utf-8"))
         if TT_UFO_LIB_KEY in self.lib:
             self.lib[TT_UFO_LIB_KEY] = deepcopy(self.lib[TT_UFO_LIB_KEY])
 
-- 
2.43.0


From e9a75288d1b64f0b0a2e2fff8e3169a4c4db140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 71/75] fix: skip classes without a name, UFOs with such groups
 can't be saved

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index a13d7bd..0f2aceb 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -166,7 +166,7 @@ class VfbToUfoBuilder:
         Args:
             data (str): The OpenType class from the VFB.
         """
-        if ":" not in data:
+        if ":" not in data or data.startswith(":"):
             logger.warning(f"Malformed OT class definition, skipping: {data}")
             return
 
-- 
2.43.0


From b2c5e07e004c9549657857f9c5e9d23cb48c974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 72/75] fix: split feature code at line ends only, not at other
 control characters

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 8445187..4deebfc 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -1,4 +1,4 @@
-from re import search
+from re import search, split
 
 from vfbLib.parsers.base import BaseParser
 from vfbLib.typing import FeaturesDict
@@ -94,7 +94,11 @@ class OpenTypeStringParser(BaseParser):
         # Filter more than 2 consecutive empty lines
         lines = []
         c = 0
-        for line in s.splitlines():
+        # Don't split at other control characters like str.splitlines() would
+        code_lines = split("\r\n|\r|\n", s)
+        if not code_lines[-1]:
+            code_lines.pop()
+        for line in code_lines:
             if line.strip():
                 c = 0
                 lines.append(line)
-- 
2.43.0


From 1a0639df45b6e7db914af26eb41ac06d1230dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 73/75] fix: don't drop a trailing 0 byte of lists of encoded
 values

---
 src/vfbLib/parsers/base.py | 11 ++++-------
 src/vfbLib/parsers/mm.py   | 10 ++++------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index dae0685..dff59c7 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -328,13 +328,10 @@ class EncodedValueListParser(BaseParser):
 
     def _parse(self) -> list[int]:
         values = []
-        while True:
-            try:
-                val = self.read_value()
-                values.append(val)
-            except EOFError:
-                logger.debug("EOF")
-                return values
+        # A 0 byte is not the end of the data
+        while self.stream.tell() < self.stream.getbuffer().nbytes:
+            values.append(self.read_value())
+        return values
 
 
 class EncodedValueListWithCountParser(BaseParser):
diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index d6c04a0..6eb6831 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -6,14 +6,12 @@ class AnisotropicInterpolationsParser(BaseParser):
     def _parse(self) -> list[list[tuple[int, int]]]:
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
-        while True:
-            try:
-                n = self.read_value()
-            except EOFError:
-                return values
-
+        # A 0 byte is not the end of the data
+        while self.stream.tell() < self.stream.getbuffer().nbytes:
+            n = self.read_value()
             axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
             values.append(axis_values)
+        return values
 
 
 class AxisMappingsCountParser(BaseParser):
-- 
2.43.0


From 11d60a8f20d16cbce900fece39905074038e9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:02 +0000
Subject: [PATCH 74/75] fix: decode bitmaps with a width of 0

---
 src/vfbLib/parsers/bitmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..b98aafa 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -66,7 +66,8 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        # Empty bitmaps have a width of 0
+        bytes_per_row = max(((w + 15) // 16) * 2, 2)
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From f29baa1d78cac75f8071f1c05ce3919b3625104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 75/75] fix: don't leave an empty JSON file if the data can't
 be exported

---
 src/vfbLib/json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/json.py b/src/vfbLib/json.py
index 69c0fca..ae7e1d2 100644
--- a/src/vfbLib/json.py
+++ b/src/vfbLib/json.py
@@ -36,9 +36,9 @@ def save_vfb_json(
 
 
 def write_vfb_json(vfb: Vfb, out_path: Path) -> None:
+    # Don't truncate an existing file if the data can't be serialized
+    data = orjson.dumps(
+        vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
+    )
     with open(str(out_path), "wb") as f:
-        f.write(
-            orjson.dumps(
-                vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
-            )
-        )
+        f.write(data)
-- 
2.43.0

