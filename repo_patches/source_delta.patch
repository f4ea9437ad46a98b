From 2e37b314e39147f80b357c4444055aa4226b29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 01/77] fix: bound coordinate reads of the WKB reader by the
 bytes that remain

The reader never subtracted consumed coordinate bytes from the number of
bytes left and computed the bytes needed in 32 bits, so truncated polygons,
multi-geometries and huge counts were accepted and read past the buffer.
---
 src/geoarrow/wkb_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..87f5c7d 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,7 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed = (int64_t)n_coords * coord_size_elements * sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +71,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From e39532262fab78f4ca54fec6b410da26e2f8890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 02/77] fix: reject numbers followed by other characters in the
 fast_float parser

GeoArrowFromChars() ignored where fast_float stopped, so tokens such as
'1abc' or '1.2.3' were read as their leading number (the strtod flavour
already rejects them).
---
 src/geoarrow/double_parse_fast_float.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..7bd5453 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,7 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 303135382c6c2423ed5d232e1bbc5222ac8defd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 03/77] fix: read flat multipoints with whitespace after the
 opening parenthesis

The reader skipped the whitespace and then stepped back a single byte to
find the parenthesis again.
---
 src/geoarrow/wkt_reader.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..4663c06 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -200,8 +200,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
 static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
                                      struct GeoArrowVisitor* v,
                                      enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
   // Read the first coordinate (there must always be one)
   NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
   ResetCoordCache(s);
@@ -285,8 +283,6 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
     // if it doesn't look like the verbose version, try the flat version
     if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
       return ReadMultipointFlat(s, v, dimensions);
     }
 
-- 
2.43.0


From 6819fa097cb18f1873d073dece1716a01f37dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 04/77] fix: read EMPTY members of flat multipoints

---
 src/geoarrow/wkt_reader.c | 49 +++++++++++----------------------------
 1 file changed, 14 insertions(+), 35 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 4663c06..b1418d7 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -197,34 +197,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-  GeoArrowWKTSkipWhitespace(s);
-
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    ResetCoordCache(s);
-    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-    GeoArrowWKTSkipWhitespace(s);
-  }
-
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
-}
-
 static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
                                              struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
@@ -243,6 +215,18 @@ static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+// Members of a multipoint may be written as (1 2), as EMPTY, or as 1 2
+static inline int ReadMultipointMember(struct WKTReaderPrivate* s,
+                                       struct GeoArrowVisitor* v) {
+  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
+    return ReadEmptyOrPointCoordinate(s, v);
+  }
+
+  ResetCoordCache(s);
+  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
+  return FlushCoordCache(s, v);
+}
+
 static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
@@ -281,14 +265,9 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTSkipWhitespace(s);
 
     // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
     NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointMember(s, v));
     NANOARROW_RETURN_NOT_OK(v->geom_end(v));
     GeoArrowWKTSkipWhitespace(s);
 
@@ -298,7 +277,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointMember(s, v));
       NANOARROW_RETURN_NOT_OK(v->geom_end(v));
       GeoArrowWKTSkipWhitespace(s);
     }
-- 
2.43.0


From 7680f3c94aab4b75b31b5f1623d6af656a294e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 05/77] fix: limit the nesting of collections read from WKT

---
 src/geoarrow/wkt_reader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index b1418d7..fe20530 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -7,11 +7,13 @@
 #include "geoarrow/geoarrow.h"
 
 #define COORD_CACHE_SIZE_COORDS 64
+#define MAX_COLLECTION_NESTING 255
 
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int32_t collection_level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -362,6 +364,14 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
                                          struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
+    // Each level of nesting is a level of recursion here
+    if (s->collection_level == MAX_COLLECTION_NESTING) {
+      GeoArrowErrorSet(v->error, "WKT geometries nested more than %d levels deep",
+                       MAX_COLLECTION_NESTING);
+      return ENOTSUP;
+    }
+
+    s->collection_level++;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
@@ -378,6 +388,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->collection_level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -473,6 +484,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->collection_level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -495,6 +507,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->collection_level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 46e331b8795ec0a98f9e9d86d2c0a8b0eec1e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 06/77] fix: reject hexadecimal and whitespace-led numbers in
 the strtod parser

---
 src/geoarrow/double_parse_std.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/double_parse_std.c b/src/geoarrow/double_parse_std.c
index 51b37de..af293e9 100644
--- a/src/geoarrow/double_parse_std.c
+++ b/src/geoarrow/double_parse_std.c
@@ -14,6 +14,13 @@ GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double*
 
   int64_t size_bytes = last - first;
 
+  // strtod() also skips leading whitespace and reads hexadecimal numbers
+  for (const char* c = first; c < last; c++) {
+    if (*c == 'x' || *c == 'X' || *c == ' ' || (*c >= '\t' && *c <= '\r')) {
+      return EINVAL;
+    }
+  }
+
   // There is no guarantee that src.data is null-terminated. The maximum size of
   // a double is 24 characters, but if we can't fit all of src for some reason, error.
   char src_copy[64];
-- 
2.43.0


From 6c2b86a8fc4d24d68c2402cbbb4dbffec767027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 07/77] fix: keep integer zeroes when printing with precision 0
 without ryu

---
 src/geoarrow/double_print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..bd1f136 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,6 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // Without a decimal, any trailing zeroes are part of the integer
+  if (precision == 0) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From d4a715d8f6eddd23e224a6ed1b369fe08f2ab799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 08/77] fix: apply the maximum WKT element size after a null
 feature

---
 src/geoarrow/wkt_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..7c42c2b 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -256,8 +256,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
 
     private->null_count++;
     return ArrowBitmapAppend(&private->validity, 0, 1);
-  } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
   if (private->max_element_size_bytes >= 0 &&
@@ -267,6 +265,10 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
         private->values_feat_start + private->max_element_size_bytes;
   }
 
+  if (private->validity.buffer.data != NULL) {
+    return ArrowBitmapAppend(&private->validity, 1, 1);
+  }
+
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From b1fe278bf2e5ce56cad13187752de28d91885926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 09/77] fix: reject features with more than one polygon when
 writing POLYGON arrays

The rings of every polygon of a visited feature ended up as rings of one
polygon. Appending a geometry view already rejected such features.
---
 src/geoarrow/native_writer.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..eec9ba2 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -706,6 +706,7 @@ static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
+  private_data->size[2] = 0;
   private_data->feat_is_null = 0;
   return GEOARROW_OK;
 }
@@ -719,6 +720,10 @@ static int geom_start_multilinestring(struct GeoArrowVisitor* v,
   private_data->last_dimensions = dimensions;
 
   switch (geometry_type) {
+    case GEOARROW_GEOMETRY_TYPE_POLYGON:
+      // Keep track of how many rings were written before this polygon
+      private_data->size[2] = private_data->size[0];
+      break;
     case GEOARROW_GEOMETRY_TYPE_LINESTRING:
     case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
       private_data->level++;
@@ -755,6 +760,14 @@ static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
 
   private_data->level--;
   if (private_data->size[1] > 0) {
+    // The rings of a second polygon would otherwise become holes of the first
+    if (private_data->size[2] > 0 &&
+        private_data->builder.view.schema_view.geometry_type ==
+            GEOARROW_GEOMETRY_TYPE_POLYGON) {
+      GeoArrowErrorSet(v->error, "Can't convert feature with >1 polygon to POLYGON");
+      return EINVAL;
+    }
+
     if (private_data->builder.view.coords.size_coords > 2147483647) {
       return EOVERFLOW;
     }
-- 
2.43.0


From 119b58f8ada44e115282d226829888d76aae9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 10/77] fix: keep the NaN filler of missing dimensions when
 swapping byte order

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..4b730d7 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The filler for missing dimensions is always in native byte order
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From 24b9b5b63efde86cce0110d8e8df2f7260bb013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 11/77] fix: point the missing dimensions of a node at NaN when
 setting its coordinates

GeoArrowGeometryNodeSetInterleaved() and GeoArrowGeometryNodeSetSeparated()
pointed them past the end of the coordinates.
---
 src/geoarrow/geoarrow_type_inline.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 4b730d7..f129fa7 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -390,8 +390,14 @@ static inline void GeoArrowGeometryNodeSetInterleaved(
   int32_t coord_stride_bytes = _GeoArrowkNumDimensions[dimensions] * sizeof(double);
   node->size = (uint32_t)(coords.size_bytes / coord_stride_bytes);
   for (int i = 0; i < 4; i++) {
-    node->coord_stride[i] = coord_stride_bytes;
-    node->coords[i] = coords.data + (i * sizeof(double));
+    // Dimensions that don't exist (or have no values) must point to a valid NaN
+    if (node->size > 0 && i < _GeoArrowkNumDimensions[dimensions]) {
+      node->coord_stride[i] = coord_stride_bytes;
+      node->coords[i] = coords.data + (i * sizeof(double));
+    } else {
+      node->coord_stride[i] = 0;
+      node->coords[i] = _GeoArrowkEmptyPointCoords;
+    }
   }
 }
 
@@ -408,8 +414,14 @@ static inline void GeoArrowGeometryNodeSetSeparated(
   int64_t dimension_size_bytes = coords.size_bytes / _GeoArrowkNumDimensions[dimensions];
   node->size = (uint32_t)(dimension_size_bytes / sizeof(double));
   for (int i = 0; i < 4; i++) {
-    node->coord_stride[i] = sizeof(double);
-    node->coords[i] = coords.data + (i * dimension_size_bytes);
+    // Dimensions that don't exist (or have no values) must point to a valid NaN
+    if (node->size > 0 && i < _GeoArrowkNumDimensions[dimensions]) {
+      node->coord_stride[i] = sizeof(double);
+      node->coords[i] = coords.data + (i * dimension_size_bytes);
+    } else {
+      node->coord_stride[i] = 0;
+      node->coords[i] = _GeoArrowkEmptyPointCoords;
+    }
   }
 }
 
-- 
2.43.0


From 03dbcb3206da7de8bdf9d3f26b74d9c5fffd9c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 12/77] fix: keep deep copies of geometries readable

The copied coordinates are in native byte order, so the nodes of the copy must
not ask for a swap; nodes without coordinates point at the NaN filler.
---
 src/geoarrow/geometry.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..17ac82d 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -135,9 +135,18 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
             GeoArrowGeometryNodeWriteSequence(node, coords_buf, coords_buf_size);
         // NANOARROW_DCHECK(bytes_written <= coords_buf_size);
 
+        // Coordinates were written using the native byte order
+        node->flags &= (uint8_t)~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         for (int i = 0; i < n_values; i++) {
-          node->coords[i] = coords_buf + (i * sizeof(double));
-          node->coord_stride[i] = n_values * sizeof(double);
+          if (node->size == 0) {
+            // There may not be any coordinate storage to point to
+            node->coords[i] = _GeoArrowkEmptyPointCoords;
+            node->coord_stride[i] = 0;
+          } else {
+            node->coords[i] = coords_buf + (i * sizeof(double));
+            node->coord_stride[i] = n_values * sizeof(double);
+          }
         }
 
         coords_buf += bytes_written;
-- 
2.43.0


From 3811cad353bac3447ff4b5cbd4dbd88295ba0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 13/77] fix: set the sizes of built geometries whose members
 are all empty

---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 17ac82d..b4cbb83 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -361,11 +361,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From 124c9d2226e01964f5d3d02c674a3972d35b6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 14/77] fix: stop visiting a geometry that has too few nodes

---
 src/geoarrow/geometry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index b4cbb83..975682f 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -456,6 +456,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
@@ -467,6 +468,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
       break;
     case GEOARROW_GEOMETRY_TYPE_POLYGON:
       if (*n_nodes < ((int64_t)node->size)) {
+        GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
         return EINVAL;
       }
 
-- 
2.43.0


From a874667af1af12ea7064cff236a04e5389a50e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 15/77] fix: compare the value of crs_type when reading
 metadata

The key was compared (and its inequality taken as a match), so any string of
the right length was taken for a known CRS type.
---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..faecb8f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -255,13 +255,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From f993b4efb69c844ef1ddce7098a7f707ca133f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 16/77] fix: do not read past the end of incomplete metadata

---
 src/geoarrow/metadata.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index faecb8f..8b6edf0 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -197,6 +197,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
 
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
+
     switch (s->data[0]) {
       case '[':
         NANOARROW_RETURN_NOT_OK(FindList(s, &v));
@@ -274,7 +278,7 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     }
 
     SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
+    if (s->size_bytes > 0 && s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
     }
-- 
2.43.0


From 33b0863aed0b0a87ec99cc643588fdbff7c1416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 17/77] fix: reject metadata with a null character inside a
 list or object

The search for the closing character did not make progress.
---
 src/geoarrow/metadata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 8b6edf0..6658da6 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -140,6 +140,9 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      // No closing character was found
+      return EINVAL;
     }
   }
 
@@ -177,6 +180,9 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      // No closing character was found
+      return EINVAL;
     }
   }
 
-- 
2.43.0


From d1562b03289ca7e8060af32ce05fb5e8d29c1434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 18/77] fix: limit the nesting of values in metadata

Deeply nested lists or objects exhausted the stack.
---
 src/geoarrow/metadata.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 6658da6..1c19bb6 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,13 +106,17 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
+// Limit the nesting of lists and objects such that reading arbitrary metadata does
+// not exhaust the stack.
+#define GEOARROW_METADATA_MAX_NESTING 512
+
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+                                    struct ArrowStringView* out, int level);
 
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+                                  struct ArrowStringView* out, int level) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->data[0] != '[' || level >= GEOARROW_METADATA_MAX_NESTING) {
     return EINVAL;
   }
 
@@ -127,10 +131,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
           break;
         case ']':
           s->size_bytes--;
@@ -150,9 +154,9 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 }
 
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+                                    struct ArrowStringView* out, int level) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->data[0] != '{' || level >= GEOARROW_METADATA_MAX_NESTING) {
     return EINVAL;
   }
 
@@ -167,10 +171,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, level + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, level + 1));
           break;
         case '}':
           s->size_bytes--;
@@ -209,10 +213,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From 5f85efc59c63f3088415b04d794d2012fb2064bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 19/77] fix: escape backslashes and control characters of the
 CRS in metadata

Backslashes were counted but not escaped, which left the last bytes of the
serialized metadata uninitialized; unescaped control characters are not JSON.
---
 src/geoarrow/metadata.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 1c19bb6..0767c56 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -357,6 +357,25 @@ static int GeoArrowMetadataCrsNeedsEscape(struct GeoArrowStringView crs) {
   return (crs.size_bytes == 0) || (*crs.data != '{' && *crs.data != '"');
 }
 
+// Writes the escaped form of a character of a JSON string to out (which must have
+// space for six characters), returning the number of characters written.
+static int64_t GeoArrowMetadataEscapeChar(char val, char* out) {
+  static const char* kHex = "0123456789abcdef";
+  if (val == '\\' || val == '"') {
+    out[0] = '\\';
+    out[1] = val;
+    return 2;
+  } else if (((unsigned char)val) < 0x20) {
+    memcpy(out, "\\u00", 4);
+    out[4] = kHex[(val >> 4) & 0x0f];
+    out[5] = kHex[val & 0x0f];
+    return 6;
+  } else {
+    out[0] = val;
+    return 1;
+  }
+}
+
 static int64_t GeoArrowMetadataCalculateSerializedSize(
     const struct GeoArrowMetadataView* metadata_view) {
   const int64_t kSizeOuterBraces = 2;
@@ -389,10 +408,10 @@ static int64_t GeoArrowMetadataCalculateSerializedSize(
     size_out += kSizeCrsKey;
 
     if (GeoArrowMetadataCrsNeedsEscape(metadata_view->crs)) {
-      size_out += kSizeQuotes + metadata_view->crs.size_bytes;
+      char escaped[6];
+      size_out += kSizeQuotes;
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
-        char val = metadata_view->crs.data[i];
-        size_out += val == '\\' || val == '"';
+        size_out += GeoArrowMetadataEscapeChar(metadata_view->crs.data[i], escaped);
       }
     } else {
       size_out += metadata_view->crs.size_bytes;
@@ -460,14 +479,12 @@ static int64_t GeoArrowMetadataSerializeInternal(
     GeoArrowWriteStringView(kCrsKey, &out);
 
     if (GeoArrowMetadataCrsNeedsEscape(metadata_view->crs)) {
+      char escaped[6];
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
-        char val = metadata_view->crs.data[i];
-        if (val == '"') {
-          *out++ = '\\';
-        }
-
-        *out++ = val;
+        int64_t n = GeoArrowMetadataEscapeChar(metadata_view->crs.data[i], escaped);
+        memcpy(out, escaped, n);
+        out += n;
       }
       *out++ = '"';
     } else {
-- 
2.43.0


From fdee2d3d287b805154db335cfec96cbee771ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 20/77] fix: decode the JSON escape sequences of a CRS

Sequences like \n or \u00e9 lost their backslash and kept the letter. This
completes writing control characters as escape sequences.
---
 src/geoarrow/metadata.c | 121 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 111 insertions(+), 10 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 0767c56..4b191cd 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -575,6 +575,102 @@ GeoArrowErrorCode GeoArrowSchemaSetMetadataFrom(struct ArrowSchema* schema,
   return result;
 }
 
+// Reads the four hexadecimal digits of a \uXXXX escape or returns -1
+static int32_t GeoArrowParseHex4(const char* data, const char* end) {
+  if ((end - data) < 4) {
+    return -1;
+  }
+
+  int32_t out = 0;
+  for (int i = 0; i < 4; i++) {
+    char c = data[i];
+    out <<= 4;
+    if (c >= '0' && c <= '9') {
+      out |= c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      out |= c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      out |= c - 'A' + 10;
+    } else {
+      return -1;
+    }
+  }
+
+  return out;
+}
+
+// Reads what follows the backslash of an escape sequence in a JSON string, writing
+// up to four UTF-8 bytes to out and their number to n_out. Returns a pointer to the
+// first character after the escape sequence.
+static const char* GeoArrowUnescapeOne(const char* data, const char* end, char* out,
+                                       int* n_out) {
+  *n_out = 1;
+  switch (*data) {
+    case 'b':
+      out[0] = '\b';
+      return data + 1;
+    case 'f':
+      out[0] = '\f';
+      return data + 1;
+    case 'n':
+      out[0] = '\n';
+      return data + 1;
+    case 'r':
+      out[0] = '\r';
+      return data + 1;
+    case 't':
+      out[0] = '\t';
+      return data + 1;
+    case 'u':
+      break;
+    default:
+      out[0] = *data;
+      return data + 1;
+  }
+
+  int32_t code = GeoArrowParseHex4(data + 1, end);
+  if (code < 0) {
+    out[0] = *data;
+    return data + 1;
+  }
+
+  data += 5;
+  if (code >= 0xd800 && code < 0xdc00 && (end - data) >= 6 && data[0] == '\\' &&
+      data[1] == 'u') {
+    int32_t low = GeoArrowParseHex4(data + 2, end);
+    if (low >= 0xdc00 && low < 0xe000) {
+      code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+      data += 6;
+    }
+  }
+
+  if (code >= 0xd800 && code < 0xe000) {
+    // Half of a surrogate pair
+    code = 0xfffd;
+  }
+
+  if (code < 0x80) {
+    out[0] = (char)code;
+  } else if (code < 0x800) {
+    out[0] = (char)(0xc0 | (code >> 6));
+    out[1] = (char)(0x80 | (code & 0x3f));
+    *n_out = 2;
+  } else if (code < 0x10000) {
+    out[0] = (char)(0xe0 | (code >> 12));
+    out[1] = (char)(0x80 | ((code >> 6) & 0x3f));
+    out[2] = (char)(0x80 | (code & 0x3f));
+    *n_out = 3;
+  } else {
+    out[0] = (char)(0xf0 | (code >> 18));
+    out[1] = (char)(0x80 | ((code >> 12) & 0x3f));
+    out[2] = (char)(0x80 | ((code >> 6) & 0x3f));
+    out[3] = (char)(0x80 | (code & 0x3f));
+    *n_out = 4;
+  }
+
+  return data;
+}
+
 int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n) {
   if (crs.size_bytes == 0) {
     if (n > 0) {
@@ -595,20 +691,25 @@ int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n)
   }
 
   int64_t out_i = 0;
-  int is_escape = 0;
-  for (int64_t i = 1; i < (crs.size_bytes - 1); i++) {
-    if (!is_escape && crs.data[i] == '\\') {
-      is_escape = 1;
-      continue;
+  const char* data = crs.data + 1;
+  const char* end = crs.data + crs.size_bytes - 1;
+  char chars[4];
+  int n_chars;
+  while (data < end) {
+    if (*data == '\\' && (data + 1) < end) {
+      data = GeoArrowUnescapeOne(data + 1, end, chars, &n_chars);
     } else {
-      is_escape = 0;
+      chars[0] = *data++;
+      n_chars = 1;
     }
 
-    if (out_i < n) {
-      out[out_i] = crs.data[i];
-    }
+    for (int i = 0; i < n_chars; i++) {
+      if (out_i < n) {
+        out[out_i] = chars[i];
+      }
 
-    out_i++;
+      out_i++;
+    }
   }
 
   if (out_i < n) {
-- 
2.43.0


From cb464b7747717cd561a563f1b05a39316c24dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 21/77] fix: only accept 'geoarrow.wkb' as the name of the WKB
 extension type

Longer names that start with it were accepted, too.
---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From e8b529c92ca2844c6593eb720458e90ec9c1a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 22/77] fix: set the schema member of a GeoArrowSchemaView

It is documented as the schema used to populate the view but was not initialized.
---
 src/geoarrow/schema_view.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index b4757f1..dc33bc5 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -339,6 +339,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     return EINVAL;
   }
 
+  schema_view->schema = (struct ArrowSchema*)schema;
   schema_view->extension_name.data = na_schema_view->extension_name.data;
   schema_view->extension_name.size_bytes = na_schema_view->extension_name.size_bytes;
   schema_view->extension_metadata.data = na_schema_view->extension_metadata.data;
-- 
2.43.0


From 817af25ea5e2dafc5e381512f53f6a1a14d1f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 23/77] fix: apply the stride when indexing a StridedIterator

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..dead6b8 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
-- 
2.43.0


From 9d0d13cb0916b5ab84a433c47369201c2ac792f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 24/77] fix: load the value in UnalignedStridedIterator's
 postfix increment

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index dead6b8..9d287b3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From 078426742d638af1f45172800bf13c7d3f3412fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 25/77] fix: convert the end of each edge in
 CoordSequence::VisitEdges()

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 9d287b3..77365a4 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -638,7 +638,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
-- 
2.43.0


From 67d478aa52149fc0eaaf6d96e7f9c94530109c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 26/77] fix: keep the byte order when slicing an
 UnalignedCoordSequence

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 77365a4..4003c22 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -780,8 +780,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence<Coord, Load> Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence<Coord, Load> out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From a83a887d0ed68e2d7a227fe847251a7d014ed212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 27/77] fix: let UnalignedCoordSequence be initialized from an
 array view

---
 src/geoarrow/hpp/array_util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 4003c22..e84d1a6 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -703,8 +703,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
-- 
2.43.0


From 4c2bbe75eae962fcfc4294e9f375d2b510a282d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 28/77] fix: convert coordinates in VisitEdges() of point and
 multipoint arrays

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index e84d1a6..68b11f2 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -1110,7 +1110,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1232,7 +1232,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 8e2d2cfea512a9384ef1546352b0c8f85b49fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 29/77] fix: make the empty XYZ and XYM boxes empty in every
 dimension

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 68b11f2..a86923c 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From 5cb1a74d546f8b540f780e20e82155ced442d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 30/77] fix: do not truncate the size of blobs larger than 4 GB
 in WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d4d9e38 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From 9ec0d8772ce2e18ef87bc0ca7632e85ceda5b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 31/77] fix: reject geometry type codes above 3999 in WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d4d9e38..a24c2d7 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -372,6 +372,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -382,6 +384,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From ee75f6473d1e63e1931f79068ea1dba985585aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 32/77] fix: limit the nesting depth accepted by WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index a24c2d7..6c4cb4f 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,7 +277,10 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Collections were nested too deeply to parse without risking exhaustion
+    /// of the stack
+    NESTING_TOO_DEEP
   };
 
   WKBParser() = default;
@@ -295,7 +298,7 @@ class WKBParser {
                const uint8_t** cursor = nullptr) {
     data_ = cursor_ = data;
     remaining_ = size;
-    Status status = ParseGeometry(out);
+    Status status = ParseGeometry(out, 0);
     if (status != OK) {
       return status;
     }
@@ -323,6 +326,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case NESTING_TOO_DEEP:
+        return "NESTING_TOO_DEEP";
       default:
         return "UNKNOWN";
     }
@@ -342,10 +347,15 @@ class WKBParser {
   static constexpr uint32_t kEWKBM = 0x40000000;
   static constexpr uint32_t kEWKBSrid = 0x20000000;
   static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
+  static constexpr int kMaxLevel = 255;
 
-  Status ParseGeometry(WKBGeometry* out) {
+  Status ParseGeometry(WKBGeometry* out, int level) {
     out->Reset();
 
+    if (level > kMaxLevel) {
+      return NESTING_TOO_DEEP;
+    }
+
     Status status = CheckRemaining(sizeof(uint8_t) + sizeof(uint32_t));
     if (status != OK) {
       return status;
@@ -415,7 +425,7 @@ class WKBParser {
       case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
       case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
         out->geometry_type = static_cast<enum GeoArrowGeometryType>(geometry_type);
-        return ParseCollection(out);
+        return ParseCollection(out, level);
       default:
         return INVALID_GEOMETRY_TYPE;
     }
@@ -468,7 +478,7 @@ class WKBParser {
     return OK;
   }
 
-  Status ParseCollection(WKBGeometry* out) {
+  Status ParseCollection(WKBGeometry* out, int level) {
     Status status = CheckRemaining(sizeof(uint32_t));
     if (status != OK) {
       return status;
@@ -476,7 +486,7 @@ class WKBParser {
 
     uint32_t size = ReadUInt32Unchecked();
     for (uint32_t i = 0; i < size; ++i) {
-      status = ParseGeometry(out->AppendGeometry());
+      status = ParseGeometry(out->AppendGeometry(), level + 1);
       if (status != OK) {
         return status;
       }
-- 
2.43.0


From c64d66dba7a252530cb41b983755fcbd74687df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 33/77] fix: initialize the counts of a new WKBGeometry

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 6c4cb4f..a625085 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -256,9 +256,9 @@ class WKBGeometry {
   // Vectors managed privately to ensure that all the stack-allocated memory associated
   // with the geometries is not freed when the vector is resized to zero.
   std::vector<WKBSequence> sequences_;
-  uint32_t num_sequences_;
+  uint32_t num_sequences_{};
   std::vector<WKBGeometry> geometries_;
-  uint32_t num_geometries_;
+  uint32_t num_geometries_{};
 };
 
 /// \brief Parse Well-known binary blobs
-- 
2.43.0


From 112fc42ee7cf8c4ab89429e36ef133d7d302fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 34/77] fix: let ArrayWriter::SetFlatMultipoint() set the
 multipoint style

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..337125c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -105,8 +105,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 5b4cdb40c039a8858a054c3a197dca24eac3495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 35/77] fix: make ArrayBuilder::SetBufferWrapped() with a
 buffer view compile

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 337125c..d8c96eb 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From 6b8220e2a7bcbd0d161a6b0de08a861cdc58418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 36/77] fix: release the previous array in
 ArrayReader::SetArray()

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From 301c01ec4432376d1b8290469713f05035e62244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 37/77] fix: do not allow copies of C++ readers, writers and
 builders to share ownership

---
 src/geoarrow/hpp/array_reader.hpp | 3 +++
 src/geoarrow/hpp/array_writer.hpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 09b016f..2d1c491 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -39,6 +39,9 @@ class ArrayReader {
                           GeoArrowArrayReaderInitFromSchema(&reader_, schema, &error));
   }
 
+  ArrayReader(const ArrayReader&) = delete;
+  ArrayReader& operator=(const ArrayReader&) = delete;
+
   ~ArrayReader() {
     if (reader_.private_data != nullptr) {
       GeoArrowArrayReaderReset(&reader_);
diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index d8c96eb..cc98b8c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -19,6 +19,9 @@ class ArrayBuilder {
                           GeoArrowBuilderInitFromSchema(&builder_, schema, &error));
   }
 
+  ArrayBuilder(const ArrayBuilder&) = delete;
+  ArrayBuilder& operator=(const ArrayBuilder&) = delete;
+
   ~ArrayBuilder() {
     if (builder_.private_data != nullptr) {
       GeoArrowBuilderReset(&builder_);
@@ -94,6 +97,9 @@ class ArrayWriter {
     GEOARROW_THROW_NOT_OK(nullptr, GeoArrowArrayWriterInitFromSchema(&writer_, schema));
   }
 
+  ArrayWriter(const ArrayWriter&) = delete;
+  ArrayWriter& operator=(const ArrayWriter&) = delete;
+
   ~ArrayWriter() {
     if (writer_.private_data != nullptr) {
       GeoArrowArrayWriterReset(&writer_);
-- 
2.43.0


From 5164e6e99edefa0f3f7b20e7f23ede8fcc436759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 38/77] fix: abbreviate the CRS in GeometryDataType::ToString()
 at small sizes

---
 src/geoarrow/hpp/geometry_data_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c55e9b1..05e701c 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -329,8 +329,9 @@ class GeometryDataType {
       crs_suffix = std::string("<") + crs_suffix + ">";
     }
 
-    if (crs_suffix.size() >= max_crs_size) {
-      crs_suffix = crs_suffix.substr(0, max_crs_size - 4) + "...>";
+    if (!crs_suffix.empty() && crs_suffix.size() >= max_crs_size) {
+      size_t crs_prefix_size = max_crs_size > 4 ? max_crs_size - 4 : 0;
+      crs_suffix = crs_suffix.substr(0, crs_prefix_size) + "...>";
     }
 
     return type_prefix + ext_name + dims + crs_suffix;
-- 
2.43.0


From 56ec26c4505a23e5689437685206811c07c26cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 39/77] fix: free the array writer's memory when the type is
 not supported

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From 98631b600aa0fcdd25a11178f0d0863a31196cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 40/77] fix: finish arrays with an owned buffer that has no
 data

nanoarrow reserves a placeholder for a data buffer whose data is NULL,
which fails with ENOMEM when the buffer's allocator is a deallocator.
An empty std::vector handed over with GeoArrowBuilderSetOwnedBuffer() or
geoarrow::ArrayWriter could therefore not be finished.
---
 src/geoarrow/builder.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..263e67a 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -172,6 +172,18 @@ GeoArrowErrorCode GeoArrowBuilderSetOwnedBuffer(
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
   struct ArrowBuffer* buffer_src = private->buffers[i];
 
+  // There is nothing to own if the buffer is empty and has no data (e.g., an empty
+  // std::vector). nanoarrow allocates a placeholder for data buffers whose data is
+  // NULL when the array is finished, which it can't do with a custom deallocator.
+  if (value.data == NULL) {
+    ArrowBufferReset(buffer_src);
+    builder->view.buffers[i].data.data = NULL;
+    builder->view.buffers[i].size_bytes = 0;
+    builder->view.buffers[i].capacity_bytes = 0;
+    custom_free((uint8_t*)value.data, value.size_bytes, private_data);
+    return GEOARROW_OK;
+  }
+
   struct GeoArrowBufferDeallocatorPrivate* deallocator =
       (struct GeoArrowBufferDeallocatorPrivate*)ArrowMalloc(
           sizeof(struct GeoArrowBufferDeallocatorPrivate));
-- 
2.43.0


From 67efcbd9af87f7b6b003cffecc3605b715ae6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 41/77] fix: release the schema when its initialization runs
 out of memory

---
 src/geoarrow/schema.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..3677def 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,6 +204,17 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From 211f22ad5bcc78a78d0a95b218199dbbfa6f2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 42/77] fix: release the array when WKT/WKB writer finish runs
 out of memory

---
 src/geoarrow/wkb_writer.c | 8 +++++++-
 src/geoarrow/wkt_writer.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..31bc9cc 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -234,7 +234,13 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 7c42c2b..0f081e9 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -343,7 +343,13 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From 3492a3866575e6495c89f7cf2a869bea224318ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 43/77] fix: check for and clean up failed allocations in the
 box kernels

---
 src/geoarrow/kernel.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..3b3a775 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -483,7 +483,13 @@ static ArrowErrorCode schema_box(struct ArrowSchema* schema,
   }
 
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(schema, GEOARROW_TYPE_BOX));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaSetMetadata(schema, &metadata));
+
+  int result = GeoArrowSchemaSetMetadata(schema, &metadata);
+  if (result != GEOARROW_OK) {
+    schema->release(schema);
+    return result;
+  }
+
   return GEOARROW_OK;
 }
 
@@ -520,13 +526,20 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
 
   for (int i = 0; i < 4; i++) {
-    NANOARROW_RETURN_NOT_OK(
-        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]));
+    result =
+        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]);
+    if (result != GEOARROW_OK) {
+      tmp.release(&tmp);
+      return result;
+    }
+
     tmp.children[i]->length = length;
   }
 
-- 
2.43.0


From 29318a1b6d2fac1cfc9cd44ae7c0df92541ad7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 44/77] fix: keep a buffer's data when its reallocation fails

---
 src/vendor/nanoarrow/nanoarrow.c | 11 ++++++-----
 src/vendor/nanoarrow/nanoarrow.h | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index da621c9..33ebf85 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -247,6 +247,9 @@ struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
 static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* allocator,
                                                  uint8_t* ptr, int64_t old_size,
                                                  int64_t new_size) {
+  NANOARROW_UNUSED(allocator);
+  NANOARROW_UNUSED(ptr);
+  NANOARROW_UNUSED(old_size);
   NANOARROW_UNUSED(new_size);
 
   // Attempting to reallocate a buffer with a custom deallocator is
@@ -257,11 +260,9 @@ static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* al
                           "ArrowBufferDeallocator()");
 #endif
 
-  // In release mode, ensure the the deallocator is called exactly
-  // once using the pointer it was given and return NULL, which
-  // will trigger the caller to return ENOMEM.
-  allocator->free(allocator, ptr, old_size);
-  *allocator = ArrowBufferAllocatorDefault();
+  // In release mode, return NULL, which will trigger the caller to return
+  // ENOMEM. The buffer keeps the pointer it was given and the deallocator
+  // is called when it is reset.
   return NULL;
 }
 
diff --git a/src/vendor/nanoarrow/nanoarrow.h b/src/vendor/nanoarrow/nanoarrow.h
index 61cf62f..626a852 100644
--- a/src/vendor/nanoarrow/nanoarrow.h
+++ b/src/vendor/nanoarrow/nanoarrow.h
@@ -2535,15 +2535,15 @@ static inline ArrowErrorCode ArrowBufferResize(struct ArrowBuffer* buffer,
                            (shrink_to_fit && new_size_bytes < buffer->capacity_bytes);
 
   if (needs_reallocation) {
-    buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                                buffer->capacity_bytes, new_size_bytes);
+    uint8_t* new_data = buffer->allocator.reallocate(
+        &buffer->allocator, buffer->data, buffer->capacity_bytes, new_size_bytes);
 
-    if (buffer->data == NULL && new_size_bytes > 0) {
-      buffer->capacity_bytes = 0;
-      buffer->size_bytes = 0;
+    // The buffer keeps its (still allocated) data when the reallocation failed
+    if (new_data == NULL && new_size_bytes > 0) {
       return ENOMEM;
     }
 
+    buffer->data = new_data;
     buffer->capacity_bytes = new_size_bytes;
   }
 
@@ -2560,15 +2560,15 @@ static inline ArrowErrorCode ArrowBufferReserve(struct ArrowBuffer* buffer,
 
   int64_t new_capacity_bytes =
       _ArrowGrowByFactor(buffer->capacity_bytes, min_capacity_bytes);
-  buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                              buffer->capacity_bytes, new_capacity_bytes);
+  uint8_t* new_data = buffer->allocator.reallocate(
+      &buffer->allocator, buffer->data, buffer->capacity_bytes, new_capacity_bytes);
 
-  if (buffer->data == NULL && new_capacity_bytes > 0) {
-    buffer->capacity_bytes = 0;
-    buffer->size_bytes = 0;
+  // The buffer keeps its (still allocated) data when the reallocation failed
+  if (new_data == NULL && new_capacity_bytes > 0) {
     return ENOMEM;
   }
 
+  buffer->data = new_data;
   buffer->capacity_bytes = new_capacity_bytes;
   return NANOARROW_OK;
 }
-- 
2.43.0


From bedaec5bb3974e2e46e74255e8f14413974bb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 45/77] fix: clean up after failed allocations in schemas and
 arrays

---
 src/vendor/nanoarrow/nanoarrow.c | 33 ++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 33ebf85..e262dc4 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -1089,22 +1089,24 @@ ArrowErrorCode ArrowSchemaSetName(struct ArrowSchema* schema, const char* name)
 }
 
 ArrowErrorCode ArrowSchemaSetMetadata(struct ArrowSchema* schema, const char* metadata) {
-  if (schema->metadata != NULL) {
-    ArrowFree((void*)schema->metadata);
-  }
+  char* metadata_copy = NULL;
 
   if (metadata != NULL) {
     size_t metadata_size = ArrowMetadataSizeOf(metadata);
-    schema->metadata = (const char*)ArrowMalloc(metadata_size);
-    if (schema->metadata == NULL) {
+    metadata_copy = (char*)ArrowMalloc(metadata_size);
+    if (metadata_copy == NULL) {
       return ENOMEM;
     }
 
-    memcpy((void*)schema->metadata, metadata, metadata_size);
-  } else {
-    schema->metadata = NULL;
+    memcpy(metadata_copy, metadata, metadata_size);
+  }
+
+  if (schema->metadata != NULL) {
+    ArrowFree((void*)schema->metadata);
   }
 
+  schema->metadata = metadata_copy;
+
   return NANOARROW_OK;
 }
 
@@ -2459,6 +2461,12 @@ ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* array,
   ArrowBufferInit(&private_data->buffers[1]);
   private_data->buffer_data =
       (const void**)ArrowMalloc(sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS);
+  if (private_data->buffer_data == NULL) {
+    ArrowFree(private_data);
+    array->release = NULL;
+    return ENOMEM;
+  }
+
   for (int i = 0; i < NANOARROW_MAX_FIXED_BUFFERS; ++i) {
     private_data->buffer_data[i] = NULL;
   }
@@ -2552,7 +2560,12 @@ ArrowErrorCode ArrowArrayInitFromSchema(struct ArrowArray* array,
                                         struct ArrowError* error) {
   struct ArrowArrayView array_view;
   NANOARROW_RETURN_NOT_OK(ArrowArrayViewInitFromSchema(&array_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromArrayView(array, &array_view, error));
+  int result = ArrowArrayInitFromArrayView(array, &array_view, error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayViewReset(&array_view);
+    return result;
+  }
+
   if (array_view.storage_type == NANOARROW_TYPE_DENSE_UNION ||
       array_view.storage_type == NANOARROW_TYPE_SPARSE_UNION) {
     struct ArrowArrayPrivateData* private_data =
@@ -2584,6 +2597,7 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
   }
 
   memset(array->children, 0, n_children * sizeof(struct ArrowArray*));
+  array->n_children = n_children;
 
   for (int64_t i = 0; i < n_children; i++) {
     array->children[i] = (struct ArrowArray*)ArrowMalloc(sizeof(struct ArrowArray));
@@ -2593,7 +2607,6 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
     array->children[i]->release = NULL;
   }
 
-  array->n_children = n_children;
   return NANOARROW_OK;
 }
 
-- 
2.43.0


From 0f722df1dd91294e6386b33624edc96b6aa64f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 46/77] fix: reset the release callback of scalar functions and
 their factories

---
 src/geoarrow/scalar_udf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..e35d453 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -66,7 +66,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
-- 
2.43.0


From c56ed4b15818c91ff752b2868288ad146907c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 47/77] fix: refuse kernel calls that have nowhere to put their
 result

---
 src/geoarrow/kernel.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 3b3a775..8271c11 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -26,6 +26,10 @@ static int kernel_push_batch_void(struct GeoArrowKernel* kernel, struct ArrowArr
   NANOARROW_UNUSED(array);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = array->length;
@@ -77,6 +81,10 @@ static int kernel_finish_void_agg(struct GeoArrowKernel* kernel, struct ArrowArr
   NANOARROW_UNUSED(out);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = 1;
@@ -187,11 +195,24 @@ static void kernel_release_visitor(struct GeoArrowKernel* kernel) {
   kernel->release = NULL;
 }
 
+// Scalar kernels need somewhere to put the result of a batch
+static int kernel_check_push_batch_out(struct GeoArrowVisitorKernelPrivate* private_data,
+                                       struct ArrowArray* out,
+                                       struct GeoArrowError* error) {
+  if (out == NULL && private_data->finish_push_batch != &finish_push_batch_do_nothing) {
+    GeoArrowErrorSet(error, "Expected non-null output for push_batch() of scalar kernel");
+    return EINVAL;
+  }
+
+  return GEOARROW_OK;
+}
+
 static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* array,
                              struct ArrowArray* out, struct GeoArrowError* error) {
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
+  NANOARROW_RETURN_NOT_OK(kernel_check_push_batch_out(private_data, out, error));
   NANOARROW_RETURN_NOT_OK(
       GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
 
@@ -208,6 +229,7 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
+  NANOARROW_RETURN_NOT_OK(kernel_check_push_batch_out(private_data, out, error));
   NANOARROW_RETURN_NOT_OK(
       GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
 
@@ -437,6 +459,10 @@ static int kernel_finish_unique_geometry_types_agg(struct GeoArrowKernel* kernel
 
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_INT32));
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowBuffer* data = ArrowArrayBuffer(&tmp, 1);
   int result = ArrowBufferReserve(data, n_types * sizeof(int32_t));
   if (result != NANOARROW_OK) {
@@ -659,6 +685,10 @@ static int finish_start_box(struct GeoArrowVisitorKernelPrivate* private_data,
                             struct ArrowSchema* schema, const char* options,
                             struct ArrowSchema* out, struct GeoArrowError* error) {
   NANOARROW_UNUSED(options);
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   NANOARROW_UNUSED(error);
 
   private_data->v.feat_start = &feat_start_box;
-- 
2.43.0


From 798f4730e057c418f9cff6397ad2ba476cea6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 48/77] fix: keep the previous state of a kernel when start()
 is called again or fails

---
 src/geoarrow/kernel.c | 54 ++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 8271c11..e518c34 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -257,21 +257,33 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
   struct GeoArrowSchemaView schema_view;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
 
-  switch (schema_view.type) {
-    case GEOARROW_TYPE_UNINITIALIZED:
-      return EINVAL;
-    default:
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
-      if (private_data->visit_by_feature) {
-        kernel->push_batch = &kernel_push_batch_by_feature;
-      } else {
-        kernel->push_batch = &kernel_push_batch;
-      }
-      break;
+  if (schema_view.type == GEOARROW_TYPE_UNINITIALIZED) {
+    return EINVAL;
+  }
+
+  // Only start accepting batches (or replace the reader from a previous call to
+  // start()) after everything that can fail has succeeded
+  struct GeoArrowArrayReader reader;
+  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderInitFromSchema(&reader, schema, error));
+
+  int result = private_data->finish_start(private_data, schema, options, out, error);
+  if (result != GEOARROW_OK) {
+    GeoArrowArrayReaderReset(&reader);
+    return result;
   }
 
-  return private_data->finish_start(private_data, schema, options, out, error);
+  if (private_data->reader.private_data != NULL) {
+    GeoArrowArrayReaderReset(&private_data->reader);
+  }
+
+  memcpy(&private_data->reader, &reader, sizeof(struct GeoArrowArrayReader));
+  if (private_data->visit_by_feature) {
+    kernel->push_batch = &kernel_push_batch_by_feature;
+  } else {
+    kernel->push_batch = &kernel_push_batch;
+  }
+
+  return GEOARROW_OK;
 }
 
 // Kernel visit_void_agg
@@ -447,6 +459,10 @@ static int kernel_finish_unique_geometry_types_agg(struct GeoArrowKernel* kernel
                                                    struct GeoArrowError* error) {
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
   uint64_t result_mask = private_data->geometry_types_private.geometry_types_mask;
@@ -459,10 +475,6 @@ static int kernel_finish_unique_geometry_types_agg(struct GeoArrowKernel* kernel
 
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_INT32));
-  if (out == NULL) {
-    return EINVAL;
-  }
-
   struct ArrowBuffer* data = ArrowArrayBuffer(&tmp, 1);
   int result = ArrowBufferReserve(data, n_types * sizeof(int32_t));
   if (result != NANOARROW_OK) {
@@ -673,6 +685,10 @@ static int finish_start_box_agg(struct GeoArrowVisitorKernelPrivate* private_dat
 
 static int kernel_finish_box_agg(struct GeoArrowKernel* kernel, struct ArrowArray* out,
                                  struct GeoArrowError* error) {
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
@@ -685,10 +701,6 @@ static int finish_start_box(struct GeoArrowVisitorKernelPrivate* private_data,
                             struct ArrowSchema* schema, const char* options,
                             struct ArrowSchema* out, struct GeoArrowError* error) {
   NANOARROW_UNUSED(options);
-  if (out == NULL) {
-    return EINVAL;
-  }
-
   NANOARROW_UNUSED(error);
 
   private_data->v.feat_start = &feat_start_box;
-- 
2.43.0


From e7b22fc1a9514f9db1cbd6ed5818a7a6f982005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 49/77] fix: give every level of offsets in
 CArrayView.buffers()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cb24350..affc6dc 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -587,7 +587,7 @@ cdef class CArrayView:
                     length + 1,
                     'i'
                 )
-            buffers.append(buf)
+                buffers.append(buf)
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
         if coords.coords_stride == 1:
-- 
2.43.0


From 10a27f67f3f1bfba4b6754a675bdea0dee261525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 50/77] fix: let the buffers of sliced and empty array views
 cover their elements

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 33 ++++++++++++++++++-----
 src/geoarrow/array_view.c                 |  7 ++++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index affc6dc..1ced473 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -562,27 +562,40 @@ cdef class CArrayView:
     def buffers(self):
         buffers = []
         cdef int64_t length
+        cdef int64_t offset
 
         # Validity not quite implemented
         buf = None
         buffers.append(buf)
 
+        # The offset of the array is not applied to its buffers: element i of the
+        # array is element offset + i of the first of them. An empty array may not
+        # have that many elements.
+        cdef int64_t array_end = 0
+        if self.c_array_view.length[0] > 0:
+            array_end = self.c_array_view.offset[0] + self.c_array_view.length[0]
+
         if self.c_array_view.n_offsets > 0:
             buf = CArrayViewBuffer(
                 self,
                 <uintptr_t>self.c_array_view.offsets[0],
                 4,
-                self.c_array_view.offset[0] + self.c_array_view.length[0] + 1,
+                array_end + 1,
                 'i'
             )
             buffers.append(buf)
 
+        # The offset of a child is applied such that the values of one buffer are
+        # indices into the next.
         if self.c_array_view.n_offsets > 1:
             for i in range(self.c_array_view.n_offsets - 1):
                 length = self.c_array_view.last_offset[i]
+                offset = 0
+                if self.c_array_view.length[i + 1] > 0:
+                    offset = self.c_array_view.offset[i + 1]
                 buf = CArrayViewBuffer(
                     self,
-                    <uintptr_t>self.c_array_view.offsets[i + 1],
+                    <uintptr_t>(self.c_array_view.offsets[i + 1] + offset),
                     4,
                     length + 1,
                     'i'
@@ -590,22 +603,30 @@ cdef class CArrayView:
                 buffers.append(buf)
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
+        offset = 0
+        if self.c_array_view.n_offsets == 0:
+            length = array_end
+        else:
+            length = self.c_array_view.last_offset[self.c_array_view.n_offsets - 1]
+            if length > 0:
+                offset = self.c_array_view.offset[self.c_array_view.n_offsets]
+
         if coords.coords_stride == 1:
             for i in range(coords.n_values):
                 buf = CArrayViewBuffer(
                     self,
-                    <uintptr_t>coords.values[i],
+                    <uintptr_t>(coords.values[i] + offset),
                     8,
-                    coords.n_coords,
+                    length,
                     'd'
                 )
                 buffers.append(buf)
         elif coords.coords_stride == coords.n_values:
             buf = CArrayViewBuffer(
                 self,
-                <uintptr_t>coords.values[0],
+                <uintptr_t>(coords.values[0] + offset * coords.n_values),
                 8,
-                coords.n_coords * coords.n_values,
+                length * coords.n_values,
                 'd'
             )
             buffers.append(buf)
diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..c57205a 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -208,7 +208,12 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
-  array_view->offsets[0] = (const int32_t*)array->buffers[1];
+  if (array->length > 0) {
+    array_view->offsets[0] = (const int32_t*)array->buffers[1];
+  } else {
+    array_view->offsets[0] = &kZeroInt32;
+  }
+
   array_view->data = (const uint8_t*)array->buffers[2];
   return GEOARROW_OK;
 }
-- 
2.43.0


From 4d45ec9292cef5116b0f8d6b0ea781f28e51be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 51/77] fix: refuse strided memory and accept empty buffers in
 CBuilder

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 1ced473..abf54a5 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -689,20 +689,32 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
+        owner = memoryview(obj)
+        cdef const unsigned char[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
+        owner = memoryview(obj)
+        cdef const int32_t[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
+        owner = memoryview(obj)
+        cdef const double[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
-- 
2.43.0


From b0ab065885a71fbe763b9d2e916429a8194f57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 52/77] fix: hold the GIL when releasing a Python buffer

---
 .../geoarrow/c/geoarrow_python/geoarrow_python.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 7c8dd8e..51c28ca 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -7,9 +7,16 @@
 #include "geoarrow/geoarrow.h"
 
 static void PyGeoArrowBufferFree(uint8_t* ptr, int64_t size, void* private_data) {
-  // Acquire the GIL? This buffer very well maybe freed from another thread.
+  // There is nothing to release (or to release it with) after the interpreter is gone
+  if (!Py_IsInitialized()) {
+    return;
+  }
+
+  // This buffer may very well be freed from another thread or without the GIL
+  PyGILState_STATE gil_state = PyGILState_Ensure();
   PyObject* obj = (PyObject*)private_data;
   Py_DECREF(obj);
+  PyGILState_Release(gil_state);
 }
 
 static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* builder,
@@ -21,15 +28,16 @@ static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* buil
   view.data = (const uint8_t*)ptr;
   view.size_bytes = size;
 
-  // This only fails with ENOMEM for a small allocation before the buffer is added
-  // to the builder.
+  // The builder owns this reference unless adding the buffer failed. It may be
+  // released before this call returns (e.g., if the buffer is empty).
+  Py_INCREF(obj);
   int result =
       GeoArrowBuilderSetOwnedBuffer(builder, i, view, &PyGeoArrowBufferFree, obj);
   if (result != GEOARROW_OK) {
+    Py_DECREF(obj);
     return result;
   }
 
-  Py_INCREF(obj);
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From eb326dd8e16e22dbdd91456ec6c9654714f5cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 53/77] fix: refuse None and released arrays in the Python
 bindings

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index abf54a5..eb9590f 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -340,9 +340,12 @@ cdef class ArrayHolder:
     def is_valid(self):
         return self.c_array.release != NULL
 
-    def release(self):
+    def _assert_valid(self):
         if self.c_array.release == NULL:
             raise ValueError('Array is already released')
+
+    def release(self):
+        self._assert_valid()
         self.c_array.release(&self.c_array)
 
 
@@ -471,12 +474,12 @@ cdef class CGeometryDataType:
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromExtension(SchemaHolder schema):
+    def FromExtension(SchemaHolder schema not None):
         cdef GeometryDataType ctype = GeometryDataType.Make1(&schema.c_schema)
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromStorage(SchemaHolder schema, string extension_name, string extension_metadata):
+    def FromStorage(SchemaHolder schema not None, string extension_name, string extension_metadata):
         cdef GeometryDataType ctype = GeometryDataType.Make2(&schema.c_schema, extension_name, extension_metadata)
         return CGeometryDataType._move_from_ctype(&ctype)
 
@@ -495,7 +498,7 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
-    def start(self, SchemaHolder schema, const char* options):
+    def start(self, SchemaHolder schema not None, const char* options):
         cdef Error error = Error()
         out = SchemaHolder()
         cdef int result = self.c_kernel.start(&self.c_kernel, &schema.c_schema,
@@ -505,7 +508,8 @@ cdef class CKernel:
 
         return out
 
-    def push_batch(self, ArrayHolder array):
+    def push_batch(self, ArrayHolder array not None):
+        array._assert_valid()
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result
@@ -526,7 +530,8 @@ cdef class CKernel:
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-    def push_batch_agg(self, ArrayHolder array):
+    def push_batch_agg(self, ArrayHolder array not None):
+        array._assert_valid()
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
                                                    NULL, &error.c_error)
@@ -547,7 +552,8 @@ cdef class CArrayView:
     cdef GeoArrowArrayView c_array_view
     cdef object _base
 
-    def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+    def __cinit__(self, ArrayHolder array not None, SchemaHolder schema not None):
+        array._assert_valid()
         self._base = array
 
         cdef Error error = Error()
@@ -678,7 +684,7 @@ cdef class CBuilder:
     cdef GeoArrowBuilder c_builder
     cdef SchemaHolder _schema
 
-    def __cinit__(self, SchemaHolder schema):
+    def __cinit__(self, SchemaHolder schema not None):
         self._schema = schema
         cdef Error error = Error()
         cdef int result = GeoArrowBuilderInitFromSchema(&self.c_builder, &schema.c_schema, &error.c_error)
-- 
2.43.0


From 2065eda18be5caec6ae00aad7f98d04617c73804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 54/77] fix: raise the intended errors from CArrayView and
 CKernel

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index eb9590f..38b32f4 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -492,7 +492,7 @@ cdef class CKernel:
         self.cname_str = cname.decode("UTF-8")
         cdef int result = GeoArrowKernelInit(&self.c_kernel, cname, NULL)
         if result != GEOARROW_OK:
-            Error.raise_error("GeoArrowKernelInit('{self.cname_str}'>)", result)
+            Error.raise_error(f"GeoArrowKernelInit('{self.cname_str}')", result)
 
     def __dealloc__(self):
         if self.c_kernel.release != NULL:
@@ -563,7 +563,7 @@ cdef class CArrayView:
 
         result = GeoArrowArrayViewSetArray(&self.c_array_view, &array.c_array, &error.c_error)
         if result != GEOARROW_OK:
-            raise ValueError(error.message.decode('UTF-8'))
+            raise ValueError(error.c_error.message.decode('UTF-8'))
 
     def buffers(self):
         buffers = []
-- 
2.43.0


From 228c97f9f32cdbe05c147480cb1093c4d309e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 55/77] fix: refuse requests for a writable buffer of a
 CArrayView

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 38b32f4..5ef3b5a 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -5,7 +5,7 @@
 """Low-level geoarrow Python bindings."""
 
 from libc.stdint cimport uint8_t, int32_t, int64_t, uintptr_t
-from cpython cimport Py_buffer, PyObject
+from cpython cimport Py_buffer, PyBUF_WRITABLE, PyObject
 from libcpp cimport bool
 from libcpp.string cimport string
 
@@ -657,6 +657,9 @@ cdef class CArrayViewBuffer:
         self._format = format
 
     def __getbuffer__(self, Py_buffer *buffer, int flags):
+        if flags & PyBUF_WRITABLE:
+            raise BufferError('Buffer is read-only')
+
         buffer.buf = self._ptr
 
         if self._format == 'i':
-- 
2.43.0


From 216437ec7af92348c6c4df1db678e6f178ae676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 56/77] fix: let CKernel.finish() finish scalar kernels

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 5ef3b5a..2b3e65b 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -523,10 +523,9 @@ cdef class CKernel:
 
     def finish(self):
         cdef Error error = Error()
-        out = ArrayHolder()
         cdef int result
         with nogil:
-            result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
+            result = self.c_kernel.finish(&self.c_kernel, NULL, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-- 
2.43.0


From ba56ea1eec007a11122fa4431c761eae8197262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 57/77] fix: add the box type to the Python enumeration of
 types

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 2b3e65b..a79731c 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -67,6 +67,7 @@ cdef extern from "geoarrow_type.h":
         GEOARROW_TYPE_LARGE_WKT = 100004
         GEOARROW_TYPE_WKB_VIEW = 100005
         GEOARROW_TYPE_WKT_VIEW = 100006
+        GEOARROW_TYPE_BOX = 990
         GEOARROW_TYPE_BOX_Z = 1990
         GEOARROW_TYPE_BOX_M = 2990
         GEOARROW_TYPE_BOX_ZM = 3990
-- 
2.43.0


From 769c6ca16d355454d5c074e8c9c22fa9338e4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 58/77] fix: do not fail to print a type whose CRS was cut
 inside a character

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index a79731c..e46ef95 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -360,7 +360,8 @@ cdef class CGeometryDataType:
         if self.c_vector_type.id() == GEOARROW_TYPE_UNINITIALIZED:
             return "<Uninitialized CGeometryDataType>"
 
-        return self.c_vector_type.ToString().decode()
+        # The CRS may have been truncated in the middle of a character
+        return self.c_vector_type.ToString().decode("UTF-8", "replace")
 
     @staticmethod
     cdef _move_from_ctype(GeometryDataType* c_vector_type):
-- 
2.43.0


From c7b1b326c40a93730ba7c6e9910f100aa878102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 59/77] fix: check the number of buffers of an array before
 reading them

---
 src/geoarrow/array_view.c        | 27 +++++++++++++++++++++++--
 src/vendor/nanoarrow/nanoarrow.c | 34 +++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index c57205a..331836c 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -170,6 +170,13 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
         return EINVAL;
     }
 
+    if (array->n_buffers != 1) {
+      GeoArrowErrorSet(error,
+                       "Unexpected number of buffers in coordinate array "
+                       "in GeoArrowArrayViewSetArray()");
+      return EINVAL;
+    }
+
     return GEOARROW_OK;
   }
 
@@ -204,7 +211,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers in serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -246,6 +261,13 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
         ((const double*)array->children[i]->buffers[1]) + array->children[i]->offset;
   }
 
+  if (array->n_buffers != 1) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers in box array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   return GEOARROW_OK;
 }
 
@@ -255,7 +277,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index e262dc4..e3e8af7 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -3089,6 +3089,31 @@ static int ArrowArrayViewSetArrayInternal(struct ArrowArrayView* array_view,
     }
 
     buffers_required++;
+  }
+
+  // View types have a buffer of variadic buffer sizes after any number of variadic
+  // buffers
+  if (array_view->storage_type == NANOARROW_TYPE_STRING_VIEW ||
+      array_view->storage_type == NANOARROW_TYPE_BINARY_VIEW) {
+    buffers_required++;
+    if (array->n_buffers > buffers_required) {
+      buffers_required = array->n_buffers;
+    }
+  }
+
+  // Check the number of buffers before accessing them
+  if (buffers_required != array->n_buffers) {
+    ArrowErrorSet(error,
+                  "Expected array with %" PRId64 " buffer(s) but found %" PRId64
+                  " buffer(s)",
+                  buffers_required, array->n_buffers);
+    return EINVAL;
+  }
+
+  for (int i = 0; i < nfixed_buf; i++) {
+    if (array_view->layout.buffer_type[i] == NANOARROW_BUFFER_TYPE_NONE) {
+      break;
+    }
 
     // Set buffer pointer
     array_view->buffer_views[i].data.data = array->buffers[i];
@@ -3108,19 +3133,10 @@ static int ArrowArrayViewSetArrayInternal(struct ArrowArrayView* array_view,
 
     const int32_t nvariadic_buf = (int32_t)(n_buffers - nfixed_buf - 1);
     array_view->n_variadic_buffers = nvariadic_buf;
-    buffers_required += nvariadic_buf + 1;
     array_view->variadic_buffers = array->buffers + NANOARROW_BINARY_VIEW_FIXED_BUFFERS;
     array_view->variadic_buffer_sizes = (int64_t*)array->buffers[n_buffers - 1];
   }
 
-  if (buffers_required != array->n_buffers) {
-    ArrowErrorSet(error,
-                  "Expected array with %" PRId64 " buffer(s) but found %" PRId64
-                  " buffer(s)",
-                  buffers_required, array->n_buffers);
-    return EINVAL;
-  }
-
   // Check number of children
   if (array_view->n_children != array->n_children) {
     ArrowErrorSet(error, "Expected %" PRId64 " children but found %" PRId64 " children",
-- 
2.43.0


From cab05974edd2425b3eb70bd5b27ac2e670608ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 60/77] fix: keep the metadata of a type made without separate
 metadata

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index af8465f..5cfbe88 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -42,7 +42,9 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
   static ::arrow::Result<std::shared_ptr<GeometryExtensionType>> Make(
       GeometryDataType type, const std::string& metadata = "") {
     try {
-      type = GeometryDataType::Make(type.id(), metadata);
+      if (!metadata.empty()) {
+        type = GeometryDataType::Make(type.id(), metadata);
+      }
       internal::SchemaHolder schema{};
       type.InitStorageSchema(&schema.schema);
       ARROW_ASSIGN_OR_RAISE(auto storage_type, ::arrow::ImportType(&schema.schema));
-- 
2.43.0


From 6f43ea03d2aa4eb8cba197d3c1c8d9af9c9d94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 61/77] fix: give changed Arrow extension types the storage of
 their type

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index 5cfbe88..f88696b 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -110,17 +110,29 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithGeometryType(
       enum GeoArrowGeometryType geometry_type) {
-    return FromStorageAndType(storage_type(), type_.WithGeometryType(geometry_type));
+    try {
+      return Make(type_.WithGeometryType(geometry_type));
+    } catch (::geoarrow::Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithCoordType(
       enum GeoArrowCoordType coord_type) const {
-    return FromStorageAndType(storage_type(), type_.WithCoordType(coord_type));
+    try {
+      return Make(type_.WithCoordType(coord_type));
+    } catch (::geoarrow::Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithDimensions(
       enum GeoArrowDimensions dimensions) const {
-    return FromStorageAndType(storage_type(), type_.WithDimensions(dimensions));
+    try {
+      return Make(type_.WithDimensions(dimensions));
+    } catch (::geoarrow::Exception& e) {
+      return ::arrow::Status::Invalid(e.what());
+    }
   }
 
   ::arrow::Result<std::shared_ptr<GeometryExtensionType>> WithEdgeType(
-- 
2.43.0


From 23daf8848dda8c4092903e3d01e5f15b82cea37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 62/77] fix: tell Arrow extension types with different
 dimensions apart

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index f88696b..386baf5 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -74,9 +74,15 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
   std::string extension_name() const override { return extension_name_; }
 
   bool ExtensionEquals(const ::arrow::ExtensionType& other) const override {
-    return extension_name() == other.extension_name() &&
-           Serialize() == other.Serialize() &&
-           storage_type()->Equals(other.storage_type());
+    if (extension_name() != other.extension_name()) {
+      return false;
+    }
+
+    // The comparison of storage types ignores the names of list fields, which is
+    // where interleaved coordinates keep their dimensions
+    const auto* other_geoarrow = dynamic_cast<const GeometryExtensionType*>(&other);
+    return other_geoarrow != nullptr && type_.id() == other_geoarrow->type_.id() &&
+           Serialize() == other.Serialize() && storage_type()->Equals(other.storage_type());
   }
 
   std::string ToString(bool show_metadata = false) const override {
-- 
2.43.0


From fd289b39a968e7d0564b0981342ff429fec36e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 63/77] fix: register the WKT and box Arrow extension types

---
 src/geoarrow/hpp/arrow_extension_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/arrow_extension_type.hpp b/src/geoarrow/hpp/arrow_extension_type.hpp
index 386baf5..a72cb9e 100644
--- a/src/geoarrow/hpp/arrow_extension_type.hpp
+++ b/src/geoarrow/hpp/arrow_extension_type.hpp
@@ -179,8 +179,9 @@ class GeometryExtensionType : public ::arrow::ExtensionType {
       : ::arrow::ExtensionType(storage_type), extension_name_(extension_name) {}
 
   static std::vector<std::string> all_ext_names() {
-    return {"geoarrow.wkb",         "geoarrow.point",      "geoarrow.linestring",
-            "geoarrow.polygon",     "geoarrow.multipoint", "geoarrow.multilinestring",
+    return {"geoarrow.wkb",        "geoarrow.wkt",        "geoarrow.box",
+            "geoarrow.point",      "geoarrow.linestring", "geoarrow.polygon",
+            "geoarrow.multipoint", "geoarrow.multilinestring",
             "geoarrow.multipolygon"};
   }
 };
-- 
2.43.0


From 702892d8174c4169aa9bc94e44da4cde33b48557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 64/77] fix: refuse to end a ring or geometry that was not
 started in the WKB writer

---
 src/geoarrow/wkb_writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 31bc9cc..2d5b219 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -116,7 +116,9 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  // There must be a ring to end
+  if (private->level == 0 ||
+      private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
   memcpy(private->values.data + private->size_pos[private->level],
@@ -128,7 +130,8 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  // There must be a geometry to end
+  if (private->level == 0) {
     return EINVAL;
   }
 
-- 
2.43.0


From 17c0c7b4e3dda7d1c9dc1db605cf3c727c2403e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 65/77] fix: keep validity aligned after a feature that was not
 ended

---
 src/geoarrow/wkb_writer.c | 19 +++++++++++++------
 src/geoarrow/wkt_writer.c | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 2d5b219..7f31129 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -168,16 +168,19 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
 
-  if (private->feat_is_null) {
-    if (private->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
-      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
-    }
+  // A feature that was started but never ended (e.g., because of an error) is a row
+  // for which there is no bit yet
+  int64_t missing_bits = private->length - 1 - private->validity.size_bits;
+  if (missing_bits < 0) {
+    return EINVAL;
+  }
 
+  if (private->feat_is_null) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, missing_bits));
     private->null_count++;
     return ArrowBitmapAppend(&private->validity, 0, 1);
   } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+    return ArrowBitmapAppend(&private->validity, 1, missing_bits + 1);
   }
 
   return GEOARROW_OK;
@@ -229,6 +232,10 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
 
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  if (private->validity.buffer.data != NULL) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(
+        &private->validity, 1, private->length - private->validity.size_bits));
+  }
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 0f081e9..6a46a1b 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -248,12 +248,15 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
-  if (private->feat_is_null) {
-    if (private->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
-      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
-    }
+  // A feature that was started but never ended (e.g., because of an error) is a row
+  // for which there is no bit yet
+  int64_t missing_bits = private->length - 1 - private->validity.size_bits;
+  if (missing_bits < 0) {
+    return EINVAL;
+  }
 
+  if (private->feat_is_null) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, missing_bits));
     private->null_count++;
     return ArrowBitmapAppend(&private->validity, 0, 1);
   }
@@ -266,7 +269,7 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
   }
 
   if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+    return ArrowBitmapAppend(&private->validity, 1, missing_bits + 1);
   }
 
   return GEOARROW_OK;
@@ -335,6 +338,10 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   }
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  if (private->validity.buffer.data != NULL) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(
+        &private->validity, 1, private->length - private->validity.size_bits));
+  }
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
-- 
2.43.0


From 06860d31fc1fef450ba3883e99584b7b697fb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 66/77] fix: check nesting and dimensions before appending a
 geometry node

---
 src/geoarrow/geometry.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 975682f..6d67bd4 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -246,6 +246,19 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  // Check before appending the node so that an invalid node never becomes
+  // part of the geometry
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
+  if (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Unexpected `dimensions` in GeoArrowGeometry visitor");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -273,11 +286,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From 20ac122b58ca7471a97f90f361e073ddd8581e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 67/77] fix: compute the size of a sequence of ordinates in 64
 bits

---
 src/geoarrow/geoarrow_type_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index f129fa7..2e0a8f0 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -478,7 +478,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
-- 
2.43.0


From 4161496958a4ad607f11b82290ae97629d77cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 68/77] fix: keep the extent of previous batches when box_agg
 start() fails

finish_start_box_agg() reset the running extent before checking the
schema and its metadata, so a refused start() silently discarded what
earlier batches had contributed.
---
 src/geoarrow/kernel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index e518c34..b99258c 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -668,6 +668,12 @@ static int finish_start_box_agg(struct GeoArrowVisitorKernelPrivate* private_dat
   NANOARROW_UNUSED(options);
   NANOARROW_UNUSED(error);
 
+  struct GeoArrowSchemaView schema_view;
+  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
+  NANOARROW_RETURN_NOT_OK(schema_box(out, schema_view.extension_metadata, error));
+
+  // Only discard the extent of previous batches after everything that can fail has
+  // succeeded
   private_data->v.coords = &coords_box;
   private_data->v.private_data = private_data;
 
@@ -676,10 +682,6 @@ static int finish_start_box_agg(struct GeoArrowVisitorKernelPrivate* private_dat
   private_data->box2d_private.min_values[0] = INFINITY;
   private_data->box2d_private.min_values[1] = INFINITY;
   private_data->box2d_private.feat_null = 0;
-
-  struct GeoArrowSchemaView schema_view;
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(schema_box(out, schema_view.extension_metadata, error));
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From babfb13cd258971ee6140f3509ede05981bbddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:19 +0000
Subject: [PATCH 69/77] fix: allow as_geoarrow start() to be called again after
 it failed

finish_start_as_geoarrow() kept the writer it had initialized when a later
step failed, so that a subsequent valid start() was refused with
"Expected exactly one call to start(as_geoarrow)".
---
 src/geoarrow/kernel.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index b99258c..a20e6ef 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -355,18 +355,28 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
     return EINVAL;
   }
 
+  // Only keep the writer after everything that can fail has succeeded such that
+  // start() can be called again after a failure
   NANOARROW_RETURN_NOT_OK(
       GeoArrowArrayWriterInitFromType(&private_data->writer, out_type));
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayWriterInitVisitor(&private_data->writer, &private_data->v));
+  int result = GeoArrowArrayWriterInitVisitor(&private_data->writer, &private_data->v);
+  if (result != GEOARROW_OK) {
+    GeoArrowArrayWriterReset(&private_data->writer);
+    return result;
+  }
 
   struct ArrowSchema tmp;
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(&tmp, out_type));
+  result = GeoArrowSchemaInitExtension(&tmp, out_type);
+  if (result != GEOARROW_OK) {
+    GeoArrowArrayWriterReset(&private_data->writer);
+    return result;
+  }
 
-  int result = GeoArrowSchemaSetMetadataFrom(&tmp, schema);
+  result = GeoArrowSchemaSetMetadataFrom(&tmp, schema);
   if (result != GEOARROW_OK) {
     GeoArrowErrorSet(error, "GeoArrowSchemaSetMetadataFrom() failed");
     tmp.release(&tmp);
+    GeoArrowArrayWriterReset(&private_data->writer);
     return result;
   }
 
-- 
2.43.0


From 26e53d89a396eed4293440e6ad85c38e9b48d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 70/77] fix: don't write the output of GeoArrowFromChars() when
 the text is not a number

---
 src/geoarrow/double_parse_fast_float.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index 7bd5453..14dd068 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -7,15 +7,17 @@
 
 extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last,
                                                double* out) {
+  double result;
 #ifdef GEOARROW_NAMESPACE
-  auto answer = GEOARROW_NAMESPACE::fast_float::from_chars(first, last, *out);
+  auto answer = GEOARROW_NAMESPACE::fast_float::from_chars(first, last, result);
 #else
-  auto answer = fast_float::from_chars(first, last, *out);
+  auto answer = fast_float::from_chars(first, last, result);
 #endif
 
   if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
+    *out = result;
     return GEOARROW_OK;
   }
 }
-- 
2.43.0


From 39f7e3ca58011a946d3cb6aca9089d5b8e85e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 71/77] fix: leave the metadata view as it was when
 GeoArrowMetadataViewInit() fails

---
 src/geoarrow/metadata.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 4b191cd..56c0ee8 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -340,17 +340,20 @@ static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
 GeoArrowErrorCode GeoArrowMetadataViewInit(struct GeoArrowMetadataView* metadata_view,
                                            struct GeoArrowStringView metadata,
                                            struct GeoArrowError* error) {
-  metadata_view->metadata = metadata;
-  metadata_view->edge_type = GEOARROW_EDGE_TYPE_PLANAR;
-  metadata_view->crs_type = GEOARROW_CRS_TYPE_NONE;
-  metadata_view->crs.data = NULL;
-  metadata_view->crs.size_bytes = 0;
+  struct GeoArrowMetadataView result;
+  result.metadata = metadata;
+  result.edge_type = GEOARROW_EDGE_TYPE_PLANAR;
+  result.crs_type = GEOARROW_CRS_TYPE_NONE;
+  result.crs.data = NULL;
+  result.crs.size_bytes = 0;
 
-  if (metadata.size_bytes == 0) {
-    return GEOARROW_OK;
+  if (metadata.size_bytes != 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowMetadataViewInitJSON(&result, error));
   }
 
-  return GeoArrowMetadataViewInitJSON(metadata_view, error);
+  // Don't modify the output unless everything succeeded
+  *metadata_view = result;
+  return GEOARROW_OK;
 }
 
 static int GeoArrowMetadataCrsNeedsEscape(struct GeoArrowStringView crs) {
-- 
2.43.0


From afb9cdfdaa42c65c017b15ee6945a16e8496e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 72/77] fix: leave the schema view as it was when initialising
 it fails

---
 src/geoarrow/schema_view.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index dc33bc5..0bedec3 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -362,7 +362,13 @@ GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* schema_view,
     return EINVAL;
   }
 
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+  // Don't modify the output unless everything succeeded
+  struct GeoArrowSchemaView result;
+  memset(&result, 0, sizeof(struct GeoArrowSchemaView));
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&result, schema, &na_schema_view, na_error));
+  *schema_view = result;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
@@ -373,11 +379,23 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
   NANOARROW_RETURN_NOT_OK(ArrowSchemaViewInit(&na_schema_view, schema, na_error));
   na_schema_view.extension_name.data = extension_name.data;
   na_schema_view.extension_name.size_bytes = extension_name.size_bytes;
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+
+  // Don't modify the output unless everything succeeded
+  struct GeoArrowSchemaView result;
+  memset(&result, 0, sizeof(struct GeoArrowSchemaView));
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&result, schema, &na_schema_view, na_error));
+  *schema_view = result;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* schema_view,
                                                  enum GeoArrowType type) {
+  const char* extension_name = GeoArrowExtensionNameFromType(type);
+  if (type != GEOARROW_TYPE_UNINITIALIZED && extension_name == NULL) {
+    return EINVAL;
+  }
+
   schema_view->schema = NULL;
   schema_view->extension_name.data = NULL;
   schema_view->extension_name.size_bytes = 0;
@@ -392,11 +410,6 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* sche
     return GEOARROW_OK;
   }
 
-  const char* extension_name = GeoArrowExtensionNameFromType(type);
-  if (extension_name == NULL) {
-    return EINVAL;
-  }
-
   schema_view->extension_name.data = extension_name;
   schema_view->extension_name.size_bytes = strlen(extension_name);
 
-- 
2.43.0


From e00c3db238664e4c8427d642b144ac180ef8ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 73/77] fix: leave the array view as it was when initialising
 it or setting an array fails

---
 src/geoarrow/array_view.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 331836c..3daa82a 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -81,17 +81,23 @@ static int GeoArrowArrayViewInitInternal(struct GeoArrowArrayView* array_view) {
 
 GeoArrowErrorCode GeoArrowArrayViewInitFromType(struct GeoArrowArrayView* array_view,
                                                 enum GeoArrowType type) {
+  struct GeoArrowSchemaView schema_view;
+  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInitFromType(&schema_view, type));
+
   memset(array_view, 0, sizeof(struct GeoArrowArrayView));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInitFromType(&array_view->schema_view, type));
+  array_view->schema_view = schema_view;
   return GeoArrowArrayViewInitInternal(array_view);
 }
 
 GeoArrowErrorCode GeoArrowArrayViewInitFromSchema(struct GeoArrowArrayView* array_view,
                                                   const struct ArrowSchema* schema,
                                                   struct GeoArrowError* error) {
+  struct GeoArrowSchemaView schema_view;
+  memset(&schema_view, 0, sizeof(struct GeoArrowSchemaView));
+  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
+
   memset(array_view, 0, sizeof(struct GeoArrowArrayView));
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowSchemaViewInit(&array_view->schema_view, schema, error));
+  array_view->schema_view = schema_view;
   return GeoArrowArrayViewInitInternal(array_view);
 }
 
@@ -274,25 +280,29 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
 GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view,
                                             const struct ArrowArray* array,
                                             struct GeoArrowError* error) {
-  switch (array_view->schema_view.type) {
+  // Don't modify the view unless everything succeeded
+  struct GeoArrowArrayView result = *array_view;
+
+  switch (result.schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
       NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
+          GeoArrowArrayViewSetArraySerialized(&result, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
     case GEOARROW_TYPE_BOX_M:
     case GEOARROW_TYPE_BOX_ZM:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArrayBox(array_view, array, error));
+      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArrayBox(&result, array, error));
       break;
     default:
       NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayViewSetArrayInternal(array_view, array, error, 0));
+          GeoArrowArrayViewSetArrayInternal(&result, array, error, 0));
       break;
   }
 
-  array_view->validity_bitmap = array->buffers[0];
+  result.validity_bitmap = array->buffers[0];
+  *array_view = result;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 852c18053ab0a9e05f52543c45b0b28e2eb1c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 74/77] fix: reject ids that are not those of a type in
 GeoArrowSchemaViewInitFromType()

---
 src/geoarrow/schema_view.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 0bedec3..02c51fb 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -396,15 +396,25 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* sche
     return EINVAL;
   }
 
+  enum GeoArrowGeometryType geometry_type = GeoArrowGeometryTypeFromType(type);
+  enum GeoArrowDimensions dimensions = GeoArrowDimensionsFromType(type);
+  enum GeoArrowCoordType coord_type = GeoArrowCoordTypeFromType(type);
+
+  // Reject identifiers that only look like a type (e.g., interleaved box)
+  if (geometry_type != GEOARROW_GEOMETRY_TYPE_GEOMETRY &&
+      GeoArrowMakeType(geometry_type, dimensions, coord_type) != type) {
+    return EINVAL;
+  }
+
   schema_view->schema = NULL;
   schema_view->extension_name.data = NULL;
   schema_view->extension_name.size_bytes = 0;
   schema_view->extension_metadata.data = NULL;
   schema_view->extension_metadata.size_bytes = 0;
   schema_view->type = type;
-  schema_view->geometry_type = GeoArrowGeometryTypeFromType(type);
-  schema_view->dimensions = GeoArrowDimensionsFromType(type);
-  schema_view->coord_type = GeoArrowCoordTypeFromType(type);
+  schema_view->geometry_type = geometry_type;
+  schema_view->dimensions = dimensions;
+  schema_view->coord_type = coord_type;
 
   if (type == GEOARROW_TYPE_UNINITIALIZED) {
     return GEOARROW_OK;
-- 
2.43.0


From 219e4e40d5e2f8838c3037071f74f7ecb3de2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 75/77] fix: keep a geometry usable when
 GeoArrowGeometryDeepCopy() runs out of memory

---
 src/geoarrow/geometry.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 6d67bd4..cd3893b 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -112,6 +112,16 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
     }
   }
 
+  // Reserve space for the nodes first: once the coords array has been resized, the
+  // existing nodes may point to memory that was freed such that nothing may fail
+  if (src.size_nodes > dst->size_nodes) {
+    GeoArrowGeometrySyncGeomToNodes(dst);
+    GEOARROW_RETURN_NOT_OK(ArrowBufferReserve(
+        &private_data->nodes,
+        (src.size_nodes - dst->size_nodes) * sizeof(struct GeoArrowGeometryNode)));
+    GeoArrowGeometrySyncNodesToGeom(dst);
+  }
+
   // Resize the destination coords array
   GEOARROW_RETURN_NOT_OK(
       ArrowBufferResize(&private_data->coords, total_bytes_required, 0));
-- 
2.43.0


From 4459d67baff61d45141a58aced11c5058fa18411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 76/77] fix: keep a builder usable when GeoArrowBuilderFinish()
 runs out of memory

---
 src/geoarrow/builder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 263e67a..3dae37b 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -287,10 +287,11 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
   struct ArrowArray tmp;
   ArrowArrayMove(&private->array, &tmp);
 
-  // Prepare for another round of building
+  // Prepare for another round of building. If this fails, keep the array (the cached
+  // pointers still point to its buffers).
   int result = GeoArrowBuilderInitArrayAndCachePointers(builder);
   if (result != GEOARROW_OK) {
-    tmp.release(&tmp);
+    ArrowArrayMove(&tmp, &private->array);
     return result;
   }
 
-- 
2.43.0


From 299b0255330cb86d884602b474195f657fc9edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:29 +0000
Subject: [PATCH 77/77] fix: reserve the same space for all dimensions of a
 builder's separate coordinates

---
 src/geoarrow/geoarrow_type_inline.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 2e0a8f0..0fd4094 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -724,6 +724,7 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
   int result;
   int64_t last_buffer = builder->view.n_buffers - 1;
   int n_values = writable_view->n_values;
+  int64_t capacity_coords = 0;
 
   switch (builder->view.schema_view.coord_type) {
     case GEOARROW_COORD_TYPE_INTERLEAVED:
@@ -758,16 +759,22 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         if (result != GEOARROW_OK) {
           return result;
         }
-      }
 
-      // Sync the capacity and pointers back to the writable view
-      writable_view->capacity_coords =
-          builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
-      for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
+        // Sync the pointer back to the writable view. Do this right away: if reserving
+        // space for another dimension fails, these values may already have been moved.
+        int dim = (int)(i - (last_buffer - n_values + 1));
+        writable_view->values[dim] = builder->view.buffers[i].data.as_double;
+
+        // ...in which case the dimensions may not all have the same capacity
+        int64_t capacity = builder->view.buffers[i].capacity_bytes / sizeof(double);
+        if (dim == 0 || capacity < capacity_coords) {
+          capacity_coords = capacity;
+        }
       }
 
+      // Sync the capacity back to the writable view
+      writable_view->capacity_coords = capacity_coords;
+
       return GEOARROW_OK;
     default:
       // Because there is no include <errno.h> here yet
-- 
2.43.0

