From 4ec99ebd58283f45b16302e114486525aac1dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 01/36] fix: check WKB coordinate sequence size without
 wrapping and account for it

The number of bytes needed by a sequence was computed in 32 bits, so a
large count passed the bounds check, and the remaining size was not
reduced by the coordinates read, so everything after the first sequence
was bounds checked against a size that was too large.
---
 src/geoarrow/wkb_reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..52d62cf 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,8 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed =
+      (int64_t)n_coords * coord_size_elements * (int64_t)sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +72,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From f3bbaf4618a98e97975127fb79f5d1a42c1bc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/36] fix: compute sequence and geometry sizes without
 wrapping 32 bits

---
 src/geoarrow/geoarrow_type_inline.h | 6 +++---
 src/geoarrow/native_writer.c        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..f283295 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -443,8 +443,8 @@ static inline GeoArrowErrorCode GeoArrowGeometryAppendNodeInline(
 
 /// \brief Count coordinates in a GeoArrowGeometryView
 /// \ingroup geoarrow-geometry
-static inline uint32_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView geom) {
-  uint32_t count = 0;
+static inline int64_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView geom) {
+  int64_t count = 0;
   const struct GeoArrowGeometryNode* end = geom.root + geom.size_nodes;
   for (const struct GeoArrowGeometryNode* node = geom.root; node < end; node++) {
     switch (node->geometry_type) {
@@ -466,7 +466,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * (int64_t)sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..f950712 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -287,7 +287,7 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  uint32_t coord_count = GeoArrowGeometryViewNumCoords(geom);
+  int64_t coord_count = GeoArrowGeometryViewNumCoords(geom);
 
   const struct GeoArrowGeometryNode* node = geom.root;
 
-- 
2.43.0


From cce0bf23b9b1464546d0382f1197d35bedc2d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 03/36] fix: refuse a geometry with too few nodes instead of
 reading past its end

---
 src/geoarrow/geometry.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..469159a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -452,6 +452,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From deef022acc3d007daaaf6c5aeac32b90f355a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/36] fix: check geometry builder nesting before a node is
 added

The node that exceeded the nesting limit was kept, so that finishing the
feature counted it past the end of the per-level sizes.
---
 src/geoarrow/geometry.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 469159a..bdf3780 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -237,6 +237,12 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -264,11 +270,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From f39f1c5fb257c7101365da5d9eabf8a38d60a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 05/36] fix: set sizes of geometries that contain no
 coordinates

GEOMETRYCOLLECTION (POINT EMPTY) was built with a collection of size zero
followed by a node that belongs to nothing.
---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index bdf3780..147cac4 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -353,11 +353,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From ff12e73e27f867fc73e2e76bc4ae12be9f855cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 06/36] fix: clear the byte order flag of deep copied sequences

The coordinates are converted while they are copied, so that reading the
copy swapped them a second time.
---
 src/geoarrow/geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 147cac4..a59dc41 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,9 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        // GeoArrowGeometryNodeWriteSequence() writes native endian coordinates
+        node->flags &= (uint8_t)~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From 0af50d2032ca559dbfcc60ec230704a2a94372ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 07/36] fix: refuse a sequence of unknown dimensions in the
 geometry builder

Such a node has no coordinate stride, which feat_end divided by; null_feat
followed by ring_start was enough to get there.
---
 src/geoarrow/geometry.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index a59dc41..f5c838e 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -246,6 +246,15 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
     return EINVAL;
   }
 
+  if ((geometry_type == GEOARROW_GEOMETRY_TYPE_POINT ||
+       geometry_type == GEOARROW_GEOMETRY_TYPE_LINESTRING) &&
+      (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM)) {
+    GeoArrowErrorSet(v->error,
+                     "Can't start a sequence of unknown dimensions in GeoArrowGeometry "
+                     "visitor");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
-- 
2.43.0


From 11d8d8c93dc1c7ea44c46064b513a1f3d5eca4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 08/36] fix: do not loop forever on metadata with an embedded
 null character

---
 src/geoarrow/metadata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..1e19e04 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -140,6 +140,9 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      // The end of the list or object is missing
+      return EINVAL;
     }
   }
 
@@ -177,6 +180,9 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      // The end of the list or object is missing
+      return EINVAL;
     }
   }
 
-- 
2.43.0


From b05113ca430c56fd95fa9eb441c3896bcff9fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 09/36] fix: do not read past the end of truncated extension
 metadata

---
 src/geoarrow/metadata.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 1e19e04..9ec3b5e 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -202,6 +202,9 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     SkipWhitespace(s);
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
 
     switch (s->data[0]) {
       case '[':
@@ -280,7 +283,7 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     }
 
     SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
+    if (s->size_bytes > 0 && s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
     }
-- 
2.43.0


From 5a566eac642bd5da7eb2454dcc4c1431d79d1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 10/36] fix: compare the crs_type value when parsing extension
 metadata

The key was compared and the result inverted, so that any string of the
right length was taken for that type.
---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 9ec3b5e..c3fd5ef 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -264,13 +264,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From c1e0f2deff71b590a1f3a98ebcc801a1e7c6acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 11/36] fix: escape backslashes when serializing the crs

The size was calculated with them escaped, so that the last bytes of the
result were never written, and the text did not parse back.
---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c3fd5ef..4d9860f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -458,7 +458,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From 3f50b6a43a83df2410f7f574ec457ff9d567b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 12/36] fix: limit the nesting of lists and objects in
 extension metadata

Every nested list or object used another stack frame, so that a long run
of brackets exhausted the stack.
---
 src/geoarrow/metadata.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 4d9860f..c37f059 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,13 +106,16 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+// Limits the recursion for nested lists and objects
+#define GEOARROW_METADATA_MAX_DEPTH 128
 
-static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int depth);
+
+static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
+                                  int depth) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (depth >= GEOARROW_METADATA_MAX_DEPTH || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -127,10 +130,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case ']':
           s->size_bytes--;
@@ -149,10 +152,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int depth) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (depth >= GEOARROW_METADATA_MAX_DEPTH || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -167,10 +170,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case '}':
           s->size_bytes--;
@@ -208,10 +211,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From b488cf8f65b3c1f670fa52bb8ff3b73dabac4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 13/36] fix: apply the WKT element size limit after a null

Once a batch contained a null the element was never truncated.
---
 src/geoarrow/wkt_writer.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..cdfb4d7 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -248,6 +248,15 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  // Truncate before the validity is handled: null or not, the element must not
+  // exceed the limit
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >
+          private->max_element_size_bytes) {
+    private->values.size_bytes =
+        private->values_feat_start + private->max_element_size_bytes;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -260,13 +269,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
-  if (private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >
-          private->max_element_size_bytes) {
-    private->values.size_bytes =
-        private->values_feat_start + private->max_element_size_bytes;
-  }
-
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 60dd89f3476af2376840fb8a83e8c255475eb6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 14/36] fix: handle events before the first feat_start in the
 WKT writer

The writer used uninitialized state as a buffer size and appended a
negative number of validity bits.
---
 src/geoarrow/wkt_writer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index cdfb4d7..a7335dc 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -247,6 +247,10 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  if (private->length == 0) {
+    GeoArrowErrorSet(v->error, "Call to feat_end before feat_start in WKTWriter");
+    return EINVAL;
+  }
 
   // Truncate before the validity is handled: null or not, the element must not
   // exceed the limit
@@ -279,6 +283,7 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKTWriterPrivate));
   private->storage_type = NANOARROW_TYPE_STRING;
   private->length = 0;
   private->level = 0;
-- 
2.43.0


From 696fbd609eb011ccd7b11654bc4c65ece216d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 15/36] fix: refuse unbalanced events in the WKB writer

ring_end and geom_end stored the element count at a position that was
never set or that belonged to an earlier element or array.
---
 src/geoarrow/wkb_writer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..acdc106 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -116,7 +116,8 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  if (private->values.data == NULL || private->level < 1 ||
+      private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
   memcpy(private->values.data + private->size_pos[private->level],
@@ -128,7 +129,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  if (private->values.data == NULL || private->level < 1) {
     return EINVAL;
   }
 
@@ -164,6 +165,10 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
+  if (private->length == 0) {
+    GeoArrowErrorSet(v->error, "Call to feat_end before feat_start in WKBWriter");
+    return EINVAL;
+  }
 
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
@@ -187,6 +192,7 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKBWriterPrivate));
   private->storage_type = NANOARROW_TYPE_BINARY;
   private->length = 0;
   private->level = 0;
@@ -234,6 +240,7 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
+  private->level = 0;
   return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
 }
 
-- 
2.43.0


From a0dfc2b19449c69953170c46d0fac71654300412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 16/36] fix: keep offsets and values aligned when a WKB append
 fails

A failed append left an extra offset and part of the element behind, and
offsets past 2 GB wrapped to negative values.
---
 src/geoarrow/wkb_writer.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index acdc106..150f207 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -277,6 +277,10 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendValidity(struct GeoArrowWKBWrite
 
 GeoArrowErrorCode GeoArrowWKBWriterAppendNull(struct GeoArrowWKBWriter* writer) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
+  if (private_data->values.size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+
   GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
       &private_data->offsets, (int32_t)private_data->values.size_bytes));
   GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 0));
@@ -361,9 +365,21 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendBuffer(struct ArrowBuffer* value
 GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendBuffer(&private_data->values, geom));
+  int64_t values_size_bytes = private_data->values.size_bytes;
+  if (values_size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+
+  GEOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private_data->offsets, (int32_t)values_size_bytes));
+  GeoArrowErrorCode result = GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  if (result != GEOARROW_OK) {
+    // Don't leave a partial element behind
+    private_data->offsets.size_bytes -= sizeof(int32_t);
+    private_data->values.size_bytes = values_size_bytes;
+    return result;
+  }
+
   GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 1));
   return GEOARROW_OK;
 }
-- 
2.43.0


From 07ba54d091e107814898101d95815ce64c76d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 17/36] fix: refuse trailing text after an embedded null
 character in WKT

---
 src/geoarrow/wkt_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..af8d7a2 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -525,7 +525,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
   NANOARROW_RETURN_NOT_OK(v->feat_end(v));
   GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) != '\0') {
+  if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
-- 
2.43.0


From dcef064da5266b48ebcb064662f2dd2428a429fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 18/36] fix: limit the nesting of collections in WKT

Every nested GEOMETRYCOLLECTION used more stack, so that a long text
exhausted it.
---
 src/geoarrow/wkt_reader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index af8d7a2..9f695a7 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,14 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// Limits the recursion for nested GEOMETRYCOLLECTIONs
+#define GEOARROW_WKT_READER_MAX_NESTING 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int32_t level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -390,6 +394,13 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
+    if (s->level >= GEOARROW_WKT_READER_MAX_NESTING) {
+      GeoArrowErrorSet(v->error, "WKTReader exceeded maximum recursion");
+      return ENOTSUP;
+    }
+
+    s->level++;
+
     // Read the first geometry (there must always be one)
     NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
     GeoArrowWKTSkipWhitespace(s);
@@ -403,6 +414,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -498,6 +510,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -520,6 +533,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 9083cddc36c7981fef79ccaf62842ad777c895ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 19/36] fix: keep trailing zeroes of integers printed without
 decimals

With a precision of zero 100 was printed as 1 and 0 as nothing.
---
 src/geoarrow/double_print.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..e48e722 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -2,6 +2,7 @@
 #include "geoarrow/geoarrow_type.h"
 
 #include <stdio.h>
+#include <string.h>
 
 #if defined(GEOARROW_USE_RYU) && GEOARROW_USE_RYU
 
@@ -32,6 +33,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // There is nothing to strip from an integer
+  if (memchr(result, '.', n_chars) == NULL) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From 38f06f7c41473462bd7a4c0b6a401f7f0aa714e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 20/36] fix: return the error when the box array can't be
 initialized

---
 src/geoarrow/kernel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..8a42984 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -520,6 +520,8 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
-- 
2.43.0


From 4fb0034713b541d3edd85aa10a839121202b271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 21/36] fix: release the array writer when its type is not
 supported

---
 src/geoarrow/array_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..1be243b 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,6 +30,7 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
+      ArrowFree(private_data);
       return ENOTSUP;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
-- 
2.43.0


From 4f092a00bbeeb1c55108c089906dfb4d3130f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 22/36] fix: refuse native offsets past the 32-bit range

Offsets were accumulated without a check and separately from the buffer
that holds them, so that they wrapped, and restarted at a stale value
when features were also written through the visitor.
---
 src/geoarrow/native_writer.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index f950712..248b1cb 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -17,7 +17,6 @@ struct GeoArrowNativeWriterPrivate {
   struct ArrowBitmap validity;
   int64_t null_count;
   int64_t current_length;
-  int32_t last_offset[4];
 
   // Fields to keep track of state
   int output_initialized;
@@ -100,7 +99,6 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   private_data->null_count = 0;
   private_data->current_length = 0;
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
-  memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
 
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
@@ -142,7 +140,7 @@ GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer
 }
 
 static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
-    struct GeoArrowNativeWriter* writer, uint32_t offset, uint32_t size,
+    struct GeoArrowNativeWriter* writer, int32_t offset, int64_t size,
     struct GeoArrowError* error) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
@@ -155,11 +153,18 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
     return EOVERFLOW;
   }
 
-  int32_t* p_last_offset = private_data->last_offset + offset;
-  (*p_last_offset) += size;
+  struct GeoArrowWritableBufferView* offsets =
+      &private_data->builder.view.buffers[offset + 1];
+  int32_t last_offset =
+      offsets->data.as_int32[offsets->size_bytes / sizeof(int32_t) - 1];
+  if (size > INT32_MAX - last_offset) {
+    GeoArrowErrorSet(error, "Can't append geometry: offset would exceed INT32_MAX");
+    return EOVERFLOW;
+  }
 
+  last_offset += (int32_t)size;
   GEOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, p_last_offset, 1));
+      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, &last_offset, 1));
 
   return GEOARROW_OK;
 }
-- 
2.43.0


From 83923ae54c7e99df010661a2403ef93ca0d82063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 23/36] fix: validate node counts when appending a geometry to
 a native array

The node list was read past its end when a node announced more children
than there are, and a geometry that was refused, or whose sizes did not
add up to its coordinates, left offsets behind that no element accounts
for.
---
 src/geoarrow/metadata.c      |   8 +-
 src/geoarrow/native_writer.c | 137 +++++++++++++++++++++++------------
 2 files changed, 96 insertions(+), 49 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c37f059..17a0fa0 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -109,8 +109,8 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
 // Limits the recursion for nested lists and objects
 #define GEOARROW_METADATA_MAX_DEPTH 128
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
-                                    int depth);
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
+                                    struct ArrowStringView* out, int depth);
 
 static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
                                   int depth) {
@@ -152,8 +152,8 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringV
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
-                                    int depth) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
+                                    struct ArrowStringView* out, int depth) {
   out->data = s->data;
   if (depth >= GEOARROW_METADATA_MAX_DEPTH || s->data[0] != '{') {
     return EINVAL;
diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 248b1cb..34372a1 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -155,8 +155,7 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
 
   struct GeoArrowWritableBufferView* offsets =
       &private_data->builder.view.buffers[offset + 1];
-  int32_t last_offset =
-      offsets->data.as_int32[offsets->size_bytes / sizeof(int32_t) - 1];
+  int32_t last_offset = offsets->data.as_int32[offsets->size_bytes / sizeof(int32_t) - 1];
   if (size > INT32_MAX - last_offset) {
     GeoArrowErrorSet(error, "Can't append geometry: offset would exceed INT32_MAX");
     return EOVERFLOW;
@@ -213,9 +212,23 @@ static void GeoArrowNativeWriterAppendCoordsUnsafe(struct GeoArrowNativeWriter*
       geom, out, strides, private_data->builder.view.schema_view.dimensions);
 }
 
+// Checks that the n nodes starting at node exist before they are read
+static GeoArrowErrorCode GeoArrowNativeWriterCheckNodes(
+    const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end,
+    int64_t n, struct GeoArrowError* error) {
+  if ((end - node) < n) {
+    GeoArrowErrorSet(error, "Too few nodes provided to GeoArrowNativeWriterAppend()");
+    return EINVAL;
+  }
+
+  return GEOARROW_OK;
+}
+
 static GeoArrowErrorCode GeoArrowNativeWriterAppendLinestringOffsets(
     struct GeoArrowNativeWriter* writer, const struct GeoArrowGeometryNode* node,
-    uint32_t n, int32_t offset, struct GeoArrowError* error) {
+    const struct GeoArrowGeometryNode* end, uint32_t n, int32_t offset,
+    struct GeoArrowError* error) {
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckNodes(node, end, n, error));
   for (int64_t i = 0; i < n; i++) {
     GEOARROW_RETURN_NOT_OK(
         GeoArrowNativeWriterAppendSize(writer, offset, node->size, error));
@@ -227,12 +240,14 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendLinestringOffsets(
 
 static GeoArrowErrorCode GeoArrowNativeWriterAppendPolygonOffsets(
     struct GeoArrowNativeWriter* writer, const struct GeoArrowGeometryNode* node,
-    uint32_t n, int32_t offset, struct GeoArrowError* error) {
+    const struct GeoArrowGeometryNode* end, uint32_t n, int32_t offset,
+    struct GeoArrowError* error) {
   for (int64_t i = 0; i < n; i++) {
+    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckNodes(node, end, 1, error));
     GEOARROW_RETURN_NOT_OK(
         GeoArrowNativeWriterAppendSize(writer, offset, node->size, error));
     GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
-        writer, node + 1, node->size, offset + 1, error));
+        writer, node + 1, end, node->size, offset + 1, error));
 
     node += node->size + 1;
   }
@@ -242,18 +257,10 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendPolygonOffsets(
 
 static GeoArrowErrorCode GeoArrowNativeWriterAppendMultiPolygonOffsets(
     struct GeoArrowNativeWriter* writer, const struct GeoArrowGeometryNode* node,
-    struct GeoArrowError* error) {
+    const struct GeoArrowGeometryNode* end, struct GeoArrowError* error) {
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 0, node->size, error));
-  uint32_t n_polygons = node->size;
-  ++node;
-  for (uint32_t i = 0; i < n_polygons; i++) {
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 1, node->size, error));
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
-        writer, node + 1, node->size, 2, error));
-    node += node->size + 1;
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterAppendPolygonOffsets(writer, node + 1, end, node->size, 1,
+                                                  error);
 }
 
 static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
@@ -286,25 +293,16 @@ GeoArrowErrorCode GeoArrowNativeWriterAppendNull(struct GeoArrowNativeWriter* wr
   return GEOARROW_OK;
 }
 
-GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer,
-                                             struct GeoArrowGeometryView geom,
-                                             struct GeoArrowError* error) {
+// Handle the offsets (and determine if this geometry can, in fact, be
+// added to the builder)
+static GeoArrowErrorCode GeoArrowNativeWriterAppendOffsets(
+    struct GeoArrowNativeWriter* writer, struct GeoArrowGeometryView geom,
+    int64_t coord_count, struct GeoArrowError* error) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
-  int64_t coord_count = GeoArrowGeometryViewNumCoords(geom);
-
   const struct GeoArrowGeometryNode* node = geom.root;
+  const struct GeoArrowGeometryNode* end = geom.root + geom.size_nodes;
 
-  // Any EMPTY can be appended to any builder
-  if (coord_count == 0) {
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, error));
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
-    return GEOARROW_OK;
-  }
-
-  // Handle the offsets (and determine if this geometry can, in fact, be
-  // added to the builder)
   switch (private_data->builder.view.schema_view.geometry_type) {
     case GEOARROW_GEOMETRY_TYPE_POINT:
       if (coord_count > 1) {
@@ -316,8 +314,8 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
     case GEOARROW_GEOMETRY_TYPE_LINESTRING:
       switch (node->geometry_type) {
         case GEOARROW_GEOMETRY_TYPE_LINESTRING:
-          GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendLinestringOffsets(writer, node, 1, 0, error));
+          GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
+              writer, node, end, 1, 0, error));
           break;
 
         case GEOARROW_GEOMETRY_TYPE_MULTILINESTRING:
@@ -328,8 +326,8 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
             return EINVAL;
           }
 
-          GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendLinestringOffsets(writer, node + 1, 1, 0, error));
+          GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
+              writer, node + 1, end, 1, 0, error));
           break;
 
         default:
@@ -342,7 +340,7 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
       switch (node->geometry_type) {
         case GEOARROW_GEOMETRY_TYPE_POLYGON: {
           GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, 1, 0, error));
+              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, end, 1, 0, error));
           break;
         }
         case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
@@ -352,8 +350,8 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
             return EINVAL;
           }
 
-          GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendPolygonOffsets(writer, node + 1, 1, 0, error));
+          GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendPolygonOffsets(
+              writer, node + 1, end, 1, 0, error));
           break;
 
         default:
@@ -383,14 +381,14 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
           GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 0, 1, error));
 
           // Append the linestring to the second offset buffer
-          GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendLinestringOffsets(writer, node, 1, 1, error));
+          GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendLinestringOffsets(
+              writer, node, end, 1, 1, error));
           break;
 
         case GEOARROW_GEOMETRY_TYPE_MULTILINESTRING:
           // Same math as appending a Polygon
           GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, 1, 0, error));
+              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, end, 1, 0, error));
           break;
 
         default:
@@ -407,12 +405,12 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
 
           // Append the polygon to the inner offset buffer
           GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, 1, 1, error));
+              GeoArrowNativeWriterAppendPolygonOffsets(writer, node, end, 1, 1, error));
           break;
 
         case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
           GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendMultiPolygonOffsets(writer, node, error));
+              GeoArrowNativeWriterAppendMultiPolygonOffsets(writer, node, end, error));
           break;
 
         default:
@@ -426,9 +424,58 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
       return EINVAL;
   }
 
+  // The innermost offset must account for exactly the coordinates we will append
+  int32_t n_offsets = private_data->builder.view.n_offsets;
+  if (n_offsets > 0) {
+    const struct GeoArrowWritableBufferView* offsets =
+        &private_data->builder.view.buffers[n_offsets];
+    int32_t last_offset =
+        offsets->data.as_int32[offsets->size_bytes / sizeof(int32_t) - 1];
+    if (last_offset != (private_data->builder.view.coords.size_coords + coord_count)) {
+      GeoArrowErrorSet(error, "Node sizes do not account for all coordinates");
+      return EINVAL;
+    }
+  }
+
+  return GEOARROW_OK;
+}
+
+GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer,
+                                             struct GeoArrowGeometryView geom,
+                                             struct GeoArrowError* error) {
+  struct GeoArrowNativeWriterPrivate* private_data =
+      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+
+  int64_t coord_count = GeoArrowGeometryViewNumCoords(geom);
+
+  // Any EMPTY can be appended to any builder
+  if (coord_count == 0) {
+    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, error));
+    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
+    return GEOARROW_OK;
+  }
+
+  int64_t offsets_size_bytes[3];
+  for (int32_t i = 0; i < private_data->builder.view.n_offsets; i++) {
+    offsets_size_bytes[i] = private_data->builder.view.buffers[i + 1].size_bytes;
+  }
+
+  GeoArrowErrorCode result =
+      GeoArrowNativeWriterAppendOffsets(writer, geom, coord_count, error);
+  if (result == GEOARROW_OK) {
+    result = GeoArrowBuilderCoordsReserve(&private_data->builder, coord_count);
+  }
+
+  if (result != GEOARROW_OK) {
+    // Don't leave the offsets of a geometry behind that can't be appended
+    for (int32_t i = 0; i < private_data->builder.view.n_offsets; i++) {
+      private_data->builder.view.buffers[i + 1].size_bytes = offsets_size_bytes[i];
+    }
+
+    return result;
+  }
+
   // Append coords
-  GEOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderCoordsReserve(&private_data->builder, coord_count));
   GeoArrowNativeWriterAppendCoordsUnsafe(writer, geom);
   private_data->builder.view.coords.size_coords += coord_count;
 
-- 
2.43.0


From da83a9f4c3bea9b5e35be544ca6d34a7b303bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 24/36] fix: do not swap the bytes of NaN for dimensions that a
 big endian geometry lacks

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index f283295..acdc6bd 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // Missing dimensions are read from a native-endian NaN
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From d1f6e8192a33e19cd7c8d0720eb0eb1af244c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 25/36] fix: refuse to fill in WKB counts that a failed
 allocation has discarded

---
 src/geoarrow/wkb_writer.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 150f207..9f647b4 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -40,6 +40,17 @@ static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private) {
   }
 }
 
+// After a failed allocation the values buffer is empty: there is no count to fill in
+static inline int WKBWriterCheckSizePos(struct WKBWriterPrivate* private) {
+  int64_t size_pos = private->size_pos[private->level];
+  if (size_pos >= 0 &&
+      size_pos <= private->values.size_bytes - (int64_t)sizeof(uint32_t)) {
+    return GEOARROW_OK;
+  } else {
+    return EINVAL;
+  }
+}
+
 static int feat_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   private->level = 0;
@@ -120,6 +131,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
       private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckSizePos(private));
   memcpy(private->values.data + private->size_pos[private->level],
          private->size + private->level, sizeof(uint32_t));
   private->level--;
@@ -134,6 +146,7 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
   }
 
   if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_POINT) {
+    NANOARROW_RETURN_NOT_OK(WKBWriterCheckSizePos(private));
     memcpy(private->values.data + private->size_pos[private->level],
            private->size + private->level, sizeof(uint32_t));
   } else if (private->size[private->level] == 0) {
-- 
2.43.0


From 7c7d250a8f63cbeeb521d28ac4ff6d16aecc26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 26/36] fix: keep geometries consistent when an allocation
 fails while building them

---
 src/geoarrow/geometry.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index f5c838e..983d2c1 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -76,10 +76,11 @@ GeoArrowErrorCode GeoArrowGeometryResizeNodes(struct GeoArrowGeometry* geom,
                                               int64_t size_nodes) {
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferResize(
-      &private_data->nodes, size_nodes * sizeof(struct GeoArrowGeometryNode), 0));
+  // A failed allocation empties the buffer, so sync in any case
+  GeoArrowErrorCode result = ArrowBufferResize(
+      &private_data->nodes, size_nodes * sizeof(struct GeoArrowGeometryNode), 0);
   GeoArrowGeometrySyncNodesToGeom(geom);
-  return GEOARROW_OK;
+  return result;
 }
 
 GeoArrowErrorCode GeoArrowGeometryAppendNode(struct GeoArrowGeometry* geom,
@@ -87,9 +88,11 @@ GeoArrowErrorCode GeoArrowGeometryAppendNode(struct GeoArrowGeometry* geom,
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
   GeoArrowGeometrySyncGeomToNodes(geom);
-  GEOARROW_RETURN_NOT_OK(
-      ArrowBufferReserve(&private_data->nodes, sizeof(struct GeoArrowGeometryNode)));
+  // A failed allocation empties the buffer, so sync in any case
+  GeoArrowErrorCode result =
+      ArrowBufferReserve(&private_data->nodes, sizeof(struct GeoArrowGeometryNode));
   GeoArrowGeometrySyncNodesToGeom(geom);
+  GEOARROW_RETURN_NOT_OK(result);
   return GeoArrowGeometryAppendNodeInline(geom, out);
 }
 
@@ -270,8 +273,14 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       // in the next sequence to calculate sequence size.
       int n_values = _GeoArrowkNumDimensions[dimensions];
       double* coords_start;
-      GEOARROW_RETURN_NOT_OK(
-          GeoArrowGeometryReserveCoords(geom, n_values, &coords_start));
+      GeoArrowErrorCode result =
+          GeoArrowGeometryReserveCoords(geom, n_values, &coords_start);
+      if (result != GEOARROW_OK) {
+        // Don't leave a sequence without storage behind
+        geom->size_nodes--;
+        return result;
+      }
+
       for (int i = 0; i < n_values; i++) {
         node->coords[i] = (uint8_t*)(coords_start + i);
         node->coord_stride[i] = n_values * sizeof(double);
@@ -442,7 +451,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     GEOARROW_RETURN_NOT_OK(v->coords(v, &coord_view));
     n_coords -= chunk_size;
     for (int i = 0; i < coord_view.n_values; i++) {
-      node_cursor.coords[i] += chunk_size * node_cursor.coord_stride[i];
+      node_cursor.coords[i] += (int64_t)chunk_size * node_cursor.coord_stride[i];
     }
   }
 
-- 
2.43.0


From e423438c81d2b30e2a8d0a08dd703a52907f8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 27/36] fix: check the number of buffers before an array's
 validity and data are read

---
 src/geoarrow/array_view.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..8779a2b 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -204,7 +204,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers in serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -250,7 +258,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
@@ -264,6 +273,13 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
       break;
   }
 
+  // The validity bitmap is the first buffer of every type
+  if (array->n_buffers < 1) {
+    GeoArrowErrorSet(error,
+                     "Expected a validity buffer in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->validity_bitmap = array->buffers[0];
   return GEOARROW_OK;
 }
-- 
2.43.0


From 3d0988fdecbaacf2b207eae919631eafd8713464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 28/36] fix: keep the builder's buffers and view in step when
 an allocation fails

---
 src/geoarrow/builder.c              | 20 +++++++++++++++-----
 src/geoarrow/geoarrow_type_inline.h | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..07ccb69 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -140,12 +140,22 @@ GeoArrowErrorCode GeoArrowBuilderReserveBuffer(struct GeoArrowBuilder* builder,
   buffer_src->size_bytes = buffer_dst->size_bytes;
 
   // Use nanoarrow's reserve
-  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(buffer_src, additional_size_bytes));
+  struct ArrowBuffer previous = *buffer_src;
+  GeoArrowErrorCode result = ArrowBufferReserve(buffer_src, additional_size_bytes);
+
+  // nanoarrow empties the buffer if the allocation fails; however, like realloc(), the
+  // default allocator has left the memory alone and we can keep it.
+  if (result != GEOARROW_OK &&
+      buffer_src->allocator.reallocate == previous.allocator.reallocate) {
+    *buffer_src = previous;
+  }
 
-  // Sync any changes back to the builder's view
-  builder->view.buffers[i].data.data = buffer_src->data;
-  builder->view.buffers[i].capacity_bytes = buffer_src->capacity_bytes;
-  return GEOARROW_OK;
+  // Sync any changes back to the builder's view (also on failure: the memory of a
+  // buffer set by GeoArrowBuilderSetOwnedBuffer() can't be reallocated and is gone)
+  buffer_dst->data.data = buffer_src->data;
+  buffer_dst->size_bytes = buffer_src->size_bytes;
+  buffer_dst->capacity_bytes = buffer_src->capacity_bytes;
+  return result;
 }
 
 struct GeoArrowBufferDeallocatorPrivate {
diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index acdc6bd..eaab359 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -743,17 +743,26 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         // Use the normal reserve
         result = GeoArrowBuilderReserveBuffer(builder, i,
                                               additional_size_coords * sizeof(double));
+
+        // Sync the pointer back to the writable view here, since it may have moved
+        // even if reserving one of the next buffers fails
+        writable_view->values[i - (last_buffer - n_values + 1)] =
+            builder->view.buffers[i].data.as_double;
+
         if (result != GEOARROW_OK) {
           return result;
         }
       }
 
-      // Sync the capacity and pointers back to the writable view
+      // Sync the capacity back to the writable view (buffers may differ in capacity if
+      // reserving one of them has failed before)
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
-      for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
+      for (int64_t i = last_buffer - n_values + 1; i < last_buffer; i++) {
+        int64_t capacity = builder->view.buffers[i].capacity_bytes / sizeof(double);
+        if (capacity < writable_view->capacity_coords) {
+          writable_view->capacity_coords = capacity;
+        }
       }
 
       return GEOARROW_OK;
-- 
2.43.0


From 4aa8211a6c6f2ac4578423c7cb076e79ab2ec336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 29/36] fix: start the native writer's next array from an empty
 feature

---
 src/geoarrow/native_writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 34372a1..751815c 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -103,6 +103,12 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
 
+  // Forget the last feature in case the next event isn't feat_start()
+  memset(private_data->size, 0, sizeof(private_data->size));
+  private_data->feat_is_null = 0;
+  private_data->nesting_multipoint = 0;
+  private_data->level = 0;
+
   private_data->output_initialized = 1;
   return GEOARROW_OK;
 }
-- 
2.43.0


From da7116b24b6e8de9cabcc1f0d03493f6739dc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 30/36] fix: count elements added by the visitor when a null is
 appended to a native writer

---
 src/geoarrow/native_writer.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 751815c..a15195e 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -16,7 +16,6 @@ struct GeoArrowNativeWriterPrivate {
 
   struct ArrowBitmap validity;
   int64_t null_count;
-  int64_t current_length;
 
   // Fields to keep track of state
   int output_initialized;
@@ -97,7 +96,6 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
   }
 
   private_data->null_count = 0;
-  private_data->current_length = 0;
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
 
   private_data->builder.view.coords.size_coords = 0;
@@ -274,14 +272,20 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  private_data->current_length++;
-
   if (!is_valid) {
     if (private_data->validity.buffer.data == NULL) {
+      // Include elements that were added by the visitor
+      int64_t current_length;
+      if (private_data->builder.view.n_offsets == 0) {
+        current_length = private_data->builder.view.coords.size_coords;
+      } else {
+        current_length =
+            private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
+      }
+
       NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1,
-                              private_data->current_length - 1);
+          ArrowBitmapReserve(&private_data->validity, current_length));
+      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
     }
 
     private_data->null_count++;
-- 
2.43.0


From cfd95fcf29bee0ff468ea03492fc11e3ef2ecf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 31/36] fix: refuse sequence counts past 2^31 - 1 in the native
 writer's visitor

---
 src/geoarrow/native_writer.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index a15195e..178a631 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -878,8 +878,11 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
 
   // Finish off the sequence of sequences. This is a polygon or multilinestring
   // so it can any number of them.
-  int32_t n_seq32 =
-      (int32_t)(private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t)) - 1;
+  int64_t n_seq = private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t) - 1;
+  if (n_seq > 2147483647) {
+    return EOVERFLOW;
+  }
+  int32_t n_seq32 = (int32_t)n_seq;
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq32, 1));
 
@@ -1008,9 +1011,12 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
   } else if (private_data->level == 1) {
     private_data->level--;
     if (private_data->size[1] > 0) {
-      int32_t n_seq32 =
-          (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) -
-          1;
+      int64_t n_seq =
+          private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t) - 1;
+      if (n_seq > 2147483647) {
+        return EOVERFLOW;
+      }
+      int32_t n_seq32 = (int32_t)n_seq;
       NANOARROW_RETURN_NOT_OK(
           GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
       private_data->size[0]++;
@@ -1049,16 +1055,24 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   // If we have an unfinished sequence of sequences left over, finish it now.
   // This could have occurred if the last geometry that was visited was a POINT.
   if (private_data->size[1] > 0) {
-    int32_t n_seq32 =
-        (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) - 1;
+    int64_t n_seq =
+        private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t) - 1;
+    if (n_seq > 2147483647) {
+      return EOVERFLOW;
+    }
+    int32_t n_seq32 = (int32_t)n_seq;
     NANOARROW_RETURN_NOT_OK(
         GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
   }
 
   // Finish off the sequence of sequence of sequences. This is a multipolygon
   // so it can be any number of them.
-  int32_t n_seq_seq32 =
-      (int32_t)(private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t)) - 1;
+  int64_t n_seq_seq =
+      private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t) - 1;
+  if (n_seq_seq > 2147483647) {
+    return EOVERFLOW;
+  }
+  int32_t n_seq_seq32 = (int32_t)n_seq_seq;
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq_seq32, 1));
 
-- 
2.43.0


From e358e1a8a965e1f8e81f96eb90888ce02b3fb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 32/36] fix: refuse coordinates after the sequence of a feature
 in the native linestring/multipoint writer

They were written without an offset and silently became the first
coordinates of the next feature.
---
 src/geoarrow/native_writer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 178a631..fb064f0 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -672,6 +672,7 @@ static int ring_end_multipoint(struct GeoArrowVisitor* v) {
   int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+  private_data->size[1] = 0;
 
   return GEOARROW_OK;
 }
@@ -696,6 +697,7 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
     NANOARROW_RETURN_NOT_OK(
         GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+    private_data->size[1] = 0;
   }
 
   return GEOARROW_OK;
@@ -726,6 +728,11 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
+  } else if (private_data->size[1] > 0) {
+    // These would otherwise become the first coordinates of the next feature
+    GeoArrowErrorSet(v->error,
+                     "Can't convert feature with coordinates after its sequence");
+    return EINVAL;
   }
 
   if (private_data->feat_is_null) {
-- 
2.43.0


From 1a92334409ceb59dbd38c335632022cbf33c46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:06 +0000
Subject: [PATCH 33/36] fix: require the whole extension name geoarrow.wkb

---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From d7de6001db67c932242e54c857e69dc166358597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:06 +0000
Subject: [PATCH 34/36] fix: WKBParser: do not truncate the size of a buffer
 view to 32 bits

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d4d9e38 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From 61bfc1cae64a50d1b4fea2a14af525fef6a44d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:06 +0000
Subject: [PATCH 35/36] fix: WKBParser: reject geometry type codes of 4000 and
 more

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d4d9e38..a24c2d7 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -372,6 +372,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -382,6 +384,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From f9d0886f9610c8070710213a16f44ed00c45f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:06 +0000
Subject: [PATCH 36/36] fix: WKBParser: limit the nesting of collections

---
 src/geoarrow/hpp/wkb_util.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index a24c2d7..0ab40bb 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,7 +277,9 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Collections are nested more deeply than the parser supports
+    TOO_MANY_LEVELS
   };
 
   WKBParser() = default;
@@ -295,6 +297,7 @@ class WKBParser {
                const uint8_t** cursor = nullptr) {
     data_ = cursor_ = data;
     remaining_ = size;
+    level_ = 0;
     Status status = ParseGeometry(out);
     if (status != OK) {
       return status;
@@ -323,6 +326,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case TOO_MANY_LEVELS:
+        return "TOO_MANY_LEVELS";
       default:
         return "UNKNOWN";
     }
@@ -332,6 +337,7 @@ class WKBParser {
   const uint8_t* data_{};
   const uint8_t* cursor_{};
   size_t remaining_{};
+  uint32_t level_{};
   uint8_t last_endian_;
   enum GeoArrowDimensions last_dimensions_;
   uint32_t last_coord_stride_;
@@ -343,6 +349,9 @@ class WKBParser {
   static constexpr uint32_t kEWKBSrid = 0x20000000;
   static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
 
+  // Children are parsed (and destroyed) recursively
+  static constexpr uint32_t kMaxLevel = 255;
+
   Status ParseGeometry(WKBGeometry* out) {
     out->Reset();
 
@@ -475,12 +484,18 @@ class WKBParser {
     }
 
     uint32_t size = ReadUInt32Unchecked();
+    if (size > 0 && level_ == kMaxLevel) {
+      return TOO_MANY_LEVELS;
+    }
+
+    ++level_;
     for (uint32_t i = 0; i < size; ++i) {
       status = ParseGeometry(out->AppendGeometry());
       if (status != OK) {
         return status;
       }
     }
+    --level_;
 
     return OK;
   }
-- 
2.43.0

