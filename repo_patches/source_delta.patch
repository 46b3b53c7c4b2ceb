From 48a3e54ac2758183f658b92d383f72637d840568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 01/42] fix: accept structure layouts whose every field has a
 converter

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..af0b58f 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts, *_ = zip(*info, strict=False)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From b85a6c21655fdb7bc04e169997d6c6cb1677d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 02/42] fix: convert tropical cyclone basin and storm type text
 before enum lookup

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..f74a470 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From 2699de7878a480aff507e7c767bb6eea5d5e9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 03/42] fix: read tropical cyclone break point layout from the
 record

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index f74a470..137956f 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4433,7 +4433,7 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(NamedStruct(break_info, self.prefmt, 'BreakPointInfo'))
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From 2f719fda8c2795f3eaa55766e49b88b57e178f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 04/42] fix: keep the whole text of fields without a null
 terminator

---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 137956f..ffe6f06 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5304,8 +5304,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00', 1)[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 48bc25d3fd9295c6f3e96870d58b1e0e6e93be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 05/42] fix: append closing point when closing list coordinates

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ffe6f06..5f3eb7a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5252,8 +5252,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = [*x, x[0]]
+            y = [*y, y[0]]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 6bb23e8ca8c6a757ceffcfce5a259af7814c67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 06/42] fix: decode one element per tropical cyclone advisory
 record

---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 5f3eb7a..2d36806 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From a091af303444809c9ebb95e5ce353727d1c8d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 07/42] fix: read significant weather text and skip all unused
 points

---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 2d36806..ec5bdcb 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4509,6 +4509,9 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+        self._buffer.skip(1)
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4532,20 +4535,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 4584b5092e2015fe967e03b276aa4a22faebf5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 08/42] fix: get_met and get_text select what has_met and
 has_text report

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ec5bdcb..ad39df5 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3020,7 +3020,7 @@ class VectorGraphicFile:
         List of `mdgpu.io.vgf.TextElement`.
         """
         if self.has_text:
-            return self.filter_elements(vg_class=VGClass.text)
+            return self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text)
 
         return None
 
@@ -3153,7 +3153,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From d8cc2aef22e1797938556cdf93a848474ef326c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 09/42] fix: accept a custom encoder class in to_json

---
 src/gempakio/decode/vgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ad39df5..4be78d2 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3254,8 +3254,9 @@ class VectorGraphicFile:
             JSON string representation of VGF elements.
         """
         serialized = [e.__dict__ for e in self._elements]
+        kwargs.setdefault('cls', NumpyEncoder)
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From 3e98cf89a5a4fdc3ad52274e1c0e073de52d4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 10/42] fix: serialize nested attributes and times to JSON

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 4be78d2..b17c08a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,10 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return vars(obj)
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 4151bda85d7692ea19dcb4ddc108c6acd991d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 11/42] fix: stop at records shorter than their own header

---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index b17c08a..7119b22 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5186,6 +5186,7 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
+            or rec_size < VGF_HEADER_SIZE
             or rec_size > size
         )
 
-- 
2.43.0


From f97775144bb027fc163f8d43dabe911c24fcc2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 12/42] fix: skip SIGMET and watch box records of unknown
 version

---
 src/gempakio/decode/vgf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 7119b22..0895ac2 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3727,6 +3727,12 @@ class VectorGraphicFile:
                     ('tops', '80s', self._decode_strip_null),
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
+            case _:
+                logger.warning(
+                    'SIGMET version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
+                return
 
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
@@ -4954,6 +4960,12 @@ class VectorGraphicFile:
                 # Manually close watch parallelogram
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
+            case _:
+                logger.warning(
+                    'Watch box version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
+                return
 
         self._elements.append(
             WatchBoxElement(
-- 
2.43.0


From ffad03936abc5b2f0aac622159f1f3da2e1f8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 13/42] fix: validate symbols when they are created

---
 src/gempakio/encode/vgf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..025dd96 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1490,10 +1490,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
@@ -1623,8 +1623,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
-- 
2.43.0


From 46552ddcc5b2ef681f3a079d52491d775c893ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 14/42] fix: size text records by encoded length

---
 src/gempakio/encode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 025dd96..0724457 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1463,7 +1465,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
+        text = self._text.encode()
 
         return header + info + text
 
-- 
2.43.0


From fda5cce6f7d6515cf092d75d4e3028fafd0fde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 15/42] fix: encode VGF elements before opening the destination

---
 src/gempakio/encode/vgf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 0724457..748aec5 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1699,6 +1699,7 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        encoded = [e.encode() for e in self.elements]
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            for data in encoded:
+                out.write(data)
-- 
2.43.0


From 7d59b744057ab09face89837b578ab92c0f4f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 16/42] fix: skip unused row and column headers whole

---
 src/gempakio/decode/gempak.py | 41 ++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..64226c5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -635,6 +635,10 @@ class GempakGrid(GempakFile):
         for _ in range(1, self.dm_label.rows + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the row number
+                self._buffer.skip(row_headers_fmt.size)
+                self.row_headers.append(None)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -658,9 +662,16 @@ class GempakGrid(GempakFile):
         for _ in range(1, self.dm_label.columns + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the column number
+                self._buffer.skip(column_headers_fmt.size)
+                self.column_headers.append(None)
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
+            if head is None:
+                continue
+
             self._gdinfo.add(
                 Grid(
                     n,
@@ -1173,6 +1184,10 @@ class GempakSounding(GempakFile):
         for _ in range(1, self.dm_label.rows + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the row number
+                self._buffer.skip(row_headers_fmt.size)
+                self.row_headers.append(None)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -1202,12 +1217,19 @@ class GempakSounding(GempakFile):
         for _ in range(1, self.dm_label.columns + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the column number
+                self._buffer.skip(column_headers_fmt.size)
+                self.column_headers.append(None)
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
         self._sninfo = set()
         for irow, row_head in enumerate(self.row_headers):
             for icol, col_head in enumerate(self.column_headers):
+                if row_head is None or col_head is None:
+                    continue
+
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
@@ -2196,6 +2218,10 @@ class GempakSurface(GempakFile):
         for _ in range(1, self.dm_label.rows + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the row number
+                self._buffer.skip(row_headers_fmt.size)
+                self.row_headers.append(None)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
@@ -2206,6 +2232,10 @@ class GempakSurface(GempakFile):
         for _ in range(1, self.dm_label.columns + 1):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+            else:
+                # Keep the slot so that header position remains the column number
+                self._buffer.skip(column_headers_fmt.size)
+                self.column_headers.append(None)
 
         self._get_surface_type()
 
@@ -2213,6 +2243,9 @@ class GempakSurface(GempakFile):
         if self.surface_type == 'standard':
             for irow, row_head in enumerate(self.row_headers):
                 for icol, col_head in enumerate(self.column_headers):
+                    if row_head is None or col_head is None:
+                        continue
+
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
@@ -2241,6 +2274,9 @@ class GempakSurface(GempakFile):
         elif self.surface_type == 'ship':
             irow = 0
             for icol, col_head in enumerate(self.column_headers):
+                if col_head is None:
+                    continue
+
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
@@ -2269,6 +2305,9 @@ class GempakSurface(GempakFile):
         elif self.surface_type == 'climate':
             for icol, col_head in enumerate(self.column_headers):
                 for irow, row_head in enumerate(self.row_headers):
+                    if row_head is None or col_head is None:
+                        continue
+
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
@@ -2309,7 +2348,7 @@ class GempakSurface(GempakFile):
         See GEMPAK SFLIB documentation for type definitions.
         """
         if (
-            len(self.row_headers) == 1
+            sum(head is not None for head in self.row_headers) == 1
             and 'DATE' in self.column_keys
             and 'STID' in self.column_keys
         ):
-- 
2.43.0


From 33a45760631c4e834b712f522b1a83b3b11b6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 17/42] fix: add surface stations with a string date

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..d8e2819 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1506,7 +1506,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From 2f291fcae32f56d0a0f3c553e9827b93b43656bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 18/42] fix: round station coordinates when scaling them

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d8e2819..89445a6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1299,7 +1299,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1565,7 +1565,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 174e63defaa5816fc48a2aeb7b66debfe32e30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 19/42] fix: check the length of the secondary grid date itself

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 89445a6..a8dd6c0 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -881,7 +881,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From a1df442b7f333299104ab3d437a41c89723986cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 20/42] fix: keep the caller's grid unchanged in add_grid

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a8dd6c0..e346a53 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -934,7 +934,7 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        self.data[new_column] = self._replace_nan(grid.copy())
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From 305be75296e7ff1094b0f453c31bd284c77f26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 21/42] fix: stage grids before adding them and sort optional
 dates

---
 src/gempakio/encode/gempak.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index e346a53..be20a73 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -932,16 +932,23 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.data[new_column] = self._replace_nan(grid.copy())
+        column_header = self.make_column_header(*new_column)
 
-        self.columns = len(self._column_set)
+        # A missing secondary date cannot be compared to one that is present
+        column_headers = sorted(
+            {*self._column_set, column_header},
+            key=lambda ch: ch._replace(GDT2=() if ch.GDT2 == 0 else (ch.GDT2,)),
+        )
 
-        if self.rows + self.columns > MMHDRS:
+        if self.rows + len(column_headers) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
+        grid = self._replace_nan(grid.copy())
+
+        self._column_set.add(column_header)
+        self.data[new_column] = grid
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
-- 
2.43.0


From c6347c7db119a6f9152e6b790585e9ed363c7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 22/42] fix: keep the time of grids with an explicit analysis
 type

---
 src/gempakio/encode/gempak.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index be20a73..dad151d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -857,6 +857,10 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # The date of an analysis has no time of its own
+                    forecast_hour += init_date.hour
+                    forecast_minute += init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -898,6 +902,10 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        # The date of an analysis has no time of its own
+                        forecast_hour2 += init_date2.hour
+                        forecast_minute2 += init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From af4f2bb9e7718afcd9219aeb567f1c3b7ad671c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 23/42] fix: check header limits before adding soundings and
 stations

---
 src/gempakio/encode/gempak.py | 44 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index dad151d..54ef761 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1256,21 +1256,23 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_header = self.make_row_header(*new_row)
+        row_headers = sorted({*self._row_set, row_header})
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.data[(new_row, new_column)] = params._asdict()
-
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        column_header = self.make_column_header(*new_column)
+        column_headers = sorted({*self._column_set, column_header})
 
-        if self.rows + self.columns > MMHDRS:
+        if len(row_headers) + len(column_headers) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self._row_set.add(row_header)
+        self._column_set.add(column_header)
+        self.data[(new_row, new_column)] = params._asdict()
+        self.rows = len(row_headers)
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SoundingFile stream."""
@@ -1522,21 +1524,23 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_header = self.make_row_header(*new_row)
+        row_headers = sorted({*self._row_set, row_header})
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.data[(new_row, new_column)] = params._asdict()
-
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        column_header = self.make_column_header(*new_column)
+        column_headers = sorted({*self._column_set, column_header})
 
-        if self.rows + self.columns > MMHDRS:
+        if len(row_headers) + len(column_headers) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self._row_set.add(row_header)
+        self._column_set.add(column_header)
+        self.data[(new_row, new_column)] = params._asdict()
+        self.rows = len(row_headers)
+        self.columns = len(column_headers)
+        self.column_headers = column_headers
+        self.row_headers = row_headers
 
     def _write_row_headers(self, stream):
         """Write row headers to a SurfaceFile stream."""
-- 
2.43.0


From f253ca78759e85b1db707341e17f64853818b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 24/42] fix: leave missing points out of the packing range

---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 54ef761..282c36d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From dd48ea46cdc7bc618b594b774084876df5ad42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 25/42] fix: keep the caller's lists of times unchanged

---
 src/gempakio/decode/gempak.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 64226c5..549d65b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1031,9 +1031,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1050,9 +1051,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time2 = [date_time2]
             if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2089,9 +2091,10 @@ class GempakSounding(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2851,9 +2854,10 @@ class GempakSurface(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From 7d0cae15b79fe74ebd8192011498b740bd4a034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 26/42] fix: ignore the case of states and countries given as
 lists

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 549d65b..df8540b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2096,14 +2096,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From b17d02042884b8e2f3beb2a3ad7757afc4e7fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 27/42] fix: find the first tropopause and significant level
 that is present

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index df8540b..6537e30 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1619,7 +1619,8 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                trop_pres = parts['TRPA' if num_trop_levels >= 1 else 'TRPC']['PRES']
+                if pbot < trop_pres[min(1, len(trop_pres) - 1)]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1690,7 +1691,8 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                sigt_pres = parts['TTBB' if num_sigt_levels >= 1 else 'TTDD']['PRES']
+                if pbot < sigt_pres[min(1, len(sigt_pres) - 1)]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From 33b0df98776e48bd94e10031f1db02822145a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 28/42] fix: merge upper winds of soundings without lower winds

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 6537e30..7d65455 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1930,7 +1930,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 20683c69762afacd10677a18215b41fdeeb08f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 29/42] fix: use the given missing value in height
 interpolation

---
 src/gempakio/gemcalc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..64cf3e3 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,7 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z, missing)
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -201,7 +201,7 @@ def interp_moist_height(sounding, missing=-9999):
     merging observed sounding data.
     """
     nlev = len(sounding['PRES'])
-    hlist = np.ones(nlev) * -9999
+    hlist = np.ones(nlev) * missing
 
     ilev = -1
     top = False
@@ -273,7 +273,7 @@ def interp_moist_height(sounding, missing=-9999):
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
             pbb = p
-- 
2.43.0


From aaa98985aa79e130ebf1001b6d515649ac5c8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 30/42] fix: return the whole id of sounding stations

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7d65455..b718f97 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1247,7 +1247,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1268,7 +1268,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1329,7 +1329,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From 31992ac3ab26e17ea18382f4f6d4b74fb543927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 31/42] fix: take the cosine of the mean latitude in degrees

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index b718f97..9a1afd6 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -764,7 +764,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From aac1e912ae91a5b9baea6d44b125e3d45ff80448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 32/42] fix: always advance when looking for the height above

---
 src/gempakio/gemcalc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 64cf3e3..5b0dba3 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -46,17 +46,19 @@ def interp_logp_height(sounding, missing=-9999):
         elif hght != missing:
             pbot = pres
             zbot = hght
-            ptop = 2000
+            ptop = np.inf
+            ztop = missing
         elif pbot == missing:
             continue
         else:
             ilev = i + 1
-            while pres <= ptop:
-                if sounding['HGHT'][ilev] != missing:
+            while pres <= ptop and ilev <= maxlev:
+                if missing not in [sounding['PRES'][ilev], sounding['HGHT'][ilev]]:
                     ptop = sounding['PRES'][ilev]
                     ztop = sounding['HGHT'][ilev]
-                else:
-                    ilev += 1
+                ilev += 1
+            if pres <= ptop or ztop == missing:
+                continue
             sounding['HGHT'][i] = zbot + (ztop - zbot) * (
                 np.log(pres / pbot) / np.log(ptop / pbot)
             )
-- 
2.43.0


From 083143aa6db39a67d8f73ed5bcc4680293f3f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 33/42] fix: select the first or last secondary date among
 those present

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 9a1afd6..066f2ca 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1069,10 +1069,12 @@ class GempakGrid(GempakFile):
         elif date_time in ['first', 'FIRST']:
             date_time = [min(d.DATTIM1 for d in matched)]
 
+        # Most grids have no secondary date
+        dates2 = sorted(d.DATTIM2 for d in matched if d.DATTIM2 is not None)
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            date_time2 = dates2[-1:]
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            date_time2 = dates2[:1]
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From d11a413d136b0bf40a9ff53042d3cceb0a49251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 34/42] fix: keep the largest packed grid value apart from the
 missing flag

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 282c36d..3798543 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -75,7 +75,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From 34bc9a82212f20014294e92b66922d71a5fb0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 35/42] fix: rejected front code or width leaves the front
 unchanged

---
 src/gempakio/encode/vgf.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 748aec5..f8981c8 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -953,16 +953,13 @@ class Front(Element):
         """
         if value not in range(1, 9):
             raise ValueError('Front width must be in range [1, 8].')
-        self._width = value
 
         _code = f'{self._front_code:03d}'
+        self._front_code = int(f'{_code[0]}{value}{_code[2]}')
         self._front_type = int(_code[0])
         self._front_intensity = value
         self._front_character = int(_code[2])
-
-        self._front_code = int(
-            f'{self._front_type}{self._front_intensity}{self._front_character}'
-        )
+        self._width = value
 
     def flip(self):
         """Flip front direction."""
@@ -984,9 +981,9 @@ class Front(Element):
         """
         if value not in range(1000):
             raise ValueError('Invalid front code.')
-        self._front_code = value
 
-        _code = f'{self._front_code:03d}'
+        _code = f'{value:03d}'
+        self._front_code = value
         self._front_type = int(_code[0])
         self._front_intensity = int(_code[1])
         self._front_character = int(_code[2])
-- 
2.43.0


From ae928e2b1276103414c0411493f3e3553bf26183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 36/42] fix: IOBuffer.truncate(0) keeps the whole buffer

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index af0b58f..a303060 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -177,7 +177,7 @@ class IOBuffer:
 
     def truncate(self, num_bytes):
         """Remove the specified number of bytes from the end of the buffer."""
-        self._data = self._data[:-num_bytes]
+        self._data = self._data[: max(len(self._data) - num_bytes, 0)]
 
     def at_end(self):
         """Return whether the buffer has reached the end of data."""
-- 
2.43.0


From 73572d11201ba788ad235eb78d830850f74dbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 37/42] fix: read the unswapped CCF block in the same byte
 order on every host

---
 src/gempakio/decode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0895ac2..35ed990 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3792,7 +3792,9 @@ class VectorGraphicFile:
             ('direction', 'f', partial(round, ndigits=2)),
         ]
 
-        # See cvgswap.c in GEMPAK source. These are not swapped.
+        # See cvgswap.c in GEMPAK source. These are not swapped, so they are in
+        # the order of the (little endian) host that wrote them, as is the text
+        # below, whatever the order of the host reading them.
         ccf_info_noswap = [
             ('text_lat', 'f', partial(round, ndigits=2)),
             ('text_lon', 'f', partial(round, ndigits=2)),
@@ -3807,7 +3809,7 @@ class VectorGraphicFile:
 
         ccf = self._buffer.read_struct(NamedStruct(ccf_info, self.prefmt, 'CCFInfo'))
 
-        ccf_noswap = self._buffer.read_struct(NamedStruct(ccf_info_noswap, '', 'CCFInfoRaw'))
+        ccf_noswap = self._buffer.read_struct(NamedStruct(ccf_info_noswap, '<', 'CCFInfoRaw'))
 
         # Because of how CCF elements are handled, swapping does not occur on
         # the special text element in the struct. We handle that manually here
-- 
2.43.0


From 467ca00365366ce0caa292391416901a88c880d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 38/42] fix: reject a file of another type instead of failing
 inside the reader

---
 src/gempakio/decode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 066f2ca..62fad3b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -617,6 +617,9 @@ class GempakGrid(GempakFile):
         """Instantiate GempakGrid object from file."""
         super().__init__(file)
 
+        if self.dm_label.file_type != FileTypes.grid:
+            raise TypeError('Not a GEMPAK grid file.')
+
         datetime_names = ['GDT1', 'GDT2']
         level_names = ['GLV1', 'GLV2']
         ftime_names = ['GTM1', 'GTM2']
@@ -1172,6 +1175,9 @@ class GempakSounding(GempakFile):
         """Instantiate GempakSounding object from file."""
         super().__init__(file)
 
+        if self.dm_label.file_type != FileTypes.sounding:
+            raise TypeError('Not a GEMPAK sounding file.')
+
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
@@ -2216,6 +2222,9 @@ class GempakSurface(GempakFile):
         """Instantiate GempakSurface object from file."""
         super().__init__(file)
 
+        if self.dm_label.file_type != FileTypes.surface:
+            raise TypeError('Not a GEMPAK surface file.')
+
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
-- 
2.43.0


From f0af6be79cb338a6ffda3b5be86c53578dd723f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 39/42] fix: report a header without a date as such

---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 62fad3b..9eeb090 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -546,6 +546,8 @@ class GempakFile:
     @staticmethod
     def _make_date(dattim):
         """Make a date object from GEMPAK DATTIM integer."""
+        if not dattim:
+            raise ValueError('Header has no date.')
         return GempakFile._convert_dattim(dattim).date()
 
     @staticmethod
-- 
2.43.0


From 9caaf03812398ac8228cd14b8152acae0b445336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 40/42] fix: GridFile kept the coordinate arrays of the caller,
 so changing them before the write changed the file

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 3798543..3c95d9c 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -632,8 +632,8 @@ class GridFile(DataManagementFile):
                 raise ValueError('Projected input coordinates must one-dimensional.')
             self.nx = len(lon)
             self.ny = len(lat)
-            self.x = lon
-            self.y = lat
+            self.x = lon.copy()
+            self.y = lat.copy()
             self.lon, self.lat = self.projection(
                 *np.meshgrid(lon, lat, copy=False), inverse=True
             )
@@ -645,8 +645,8 @@ class GridFile(DataManagementFile):
             _x, _y = self.projection(lon, lat)
             self.x = _x[0, :]
             self.y = _y[:, 0]
-            self.lon = lon
-            self.lat = lat
+            self.lon = lon.copy()
+            self.lat = lat.copy()
             self._is_xy = False
 
         self._set_projection_params()
-- 
2.43.0


From 8e21a6b414dad5140e5de16b0c4d09065b9b2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:57 +0000
Subject: [PATCH 41/42] fix: below ground levels are placed by the number of
 merged levels

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 9eeb090..2e15b85 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2023,6 +2023,7 @@ class GempakSounding(GempakFile):
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
+                    size = len(merged['PRES'])
                     loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
                     merged['PRES'].insert(loc, pres)
                     merged['TEMP'].insert(loc, parts['TTAA']['TEMP'][ibgl])
@@ -2030,7 +2031,6 @@ class GempakSounding(GempakFile):
                     merged['DRCT'].insert(loc, parts['TTAA']['DRCT'][ibgl])
                     merged['SPED'].insert(loc, parts['TTAA']['SPED'][ibgl])
                     merged['HGHT'].insert(loc, parts['TTAA']['HGHT'][ibgl])
-                    size += 1
 
         # Add text data, if it is included
         if 'TXTA' in parts:
-- 
2.43.0


From e3b9ca13f59a6a2292db658b915f861bd60a671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 42/42] fix: a significant wind at the next level fills that
 level only where it is missing

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 2e15b85..adbac88 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1988,8 +1988,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0

