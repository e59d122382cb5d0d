/* C22: the header-only WKB parser, translated to C (vp/hpp.py). */
#include "vp.h"
#include "geoarrow/geoarrow.h"
typedef struct WKBGeometry WKBGeometry;
typedef struct WKBSequence WKBSequence;
static int vp_point(WKBGeometry* out), vp_sequence(WKBGeometry* out), vp_polygon(WKBGeometry* out), vp_collection(WKBGeometry* out);
static int vp_ring(WKBGeometry* out), vp_child(WKBGeometry* out), vp_root(WKBGeometry* out);
static WKBSequence* vp_new_sequence(WKBGeometry* out);
static WKBGeometry* vp_new_geometry(WKBGeometry* out);
static int vp_bytes(const uint8_t* data, size_t size, WKBGeometry* out, const uint8_t** cursor);
static uint32_t vp_le32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t vp_be32(const uint8_t* p) { return (uint32_t)p[3] | (uint32_t)p[2] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[0] << 24; }
#define VP_LE32(p) vp_le32(p)
#define VP_BE32(p) vp_be32(p)
/* a vector: how many there are; an element exists if it is below that */
#define VP_SIZE(self, v) ((v).vp_size)
#define VP_PUSH(self, v) (g_pushed++, (v).vp_size++)
#define VP_AT(self, v, i) ((v).vp_data[vp_at((i), (v).vp_size)])
static int vp_at(size_t i, size_t n);
static int g_pushed;
static size_t g_at;
static int vp_at(size_t i, size_t n) { VP_ASSERT(i < n, "an element there is"); g_at = i; return 0; }
static uint8_t* g_data;
static size_t g_n, g_p, g_q; /* the bytes, where the function begins, where it is */
static int g_done, g_rc;
static WKBSequence* g_seqp;
#define INV_POLY(M, i, size) \
  M((i) <= (size) && g_done == 0 && g_rings == (i) && g_rc == OK && AT(g_q), "so many rings, each within the bytes") \
  M(LAST_SAME, "of the geometry's dimensions and byte order")
#define HAVOC_POLY(i, size) \
  { g_rings = vp_u32(); g_q = vp_size(); __CPROVER_assume(g_q >= g_p + 4 && g_q <= g_n); cursor_ = g_data + g_q; remaining_ = g_n - g_q; }
#define STEP_POLY(M, i, size)
#define BEFORE_POLY(i, size)
#define INV_COLL(M, i, size) \
  M((i) <= (size) && g_done == 0 && g_rings == (i) && g_appended == (i) && g_rc == OK && AT(g_q) && ((size) == 0 || level_ == g_level + 1), "so many geometries, each within the bytes")
#define HAVOC_COLL(i, size) \
  { g_appended = g_rings = vp_u32(); g_q = vp_size(); __CPROVER_assume(g_q >= g_p + 4 && g_q <= g_n); cursor_ = g_data + g_q; remaining_ = g_n - g_q; \
    last_endian_ = vp_u8(); last_dimensions_ = (enum GeoArrowDimensions)vp_int(); last_coord_stride_ = vp_u32(); }
#define STEP_COLL(M, i, size)
#define BEFORE_COLL(i, size)
static uint32_t g_rings, g_appended, g_level;
#define AT(q) ((q) <= g_n && data_ == g_data && cursor_ == g_data + (q) && remaining_ == g_n - (q))
static int g_d, g_e;
static uint32_t g_stride;
#define LAST_SAME (last_endian_ == g_e && last_dimensions_ == g_d && last_coord_stride_ == g_stride)
#include "geoarrow/wkb_parser.c"

static WKBGeometry G, CHILD;
static WKBSequence SEQ;
static void bytes(void) {
  vp_init();
  g_n = vp_size();
  VP_ASSUME(g_n <= VP_MAX_OBJ);
  g_data = (uint8_t*)vp_alloc(g_n);
  g_p = vp_size();
  VP_ASSUME(g_p <= g_n);
  data_ = g_data, cursor_ = g_data + g_p, remaining_ = g_n - g_p;
  g_q = g_p;
  WKBGeometry any;
  G = any;
  WKBSequence s;
  SEQ = s;
}
/* the header that the body is of: byte order, dimensions and their number */
static void header(void) {
  g_e = vp_u8() & 1;
  g_d = vp_int();
  VP_ASSUME(g_d >= 1 && g_d <= 4);
  g_stride = g_d == 1 ? 2 : g_d == 4 ? 4 : 3;
  last_endian_ = (uint8_t)g_e, last_dimensions_ = (enum GeoArrowDimensions)g_d, last_coord_stride_ = g_stride;
}
static uint32_t u32_at(size_t p, int e) { return e ? vp_le32(g_data + p) : vp_be32(g_data + p); }
static int some_status(void) {
  int s = vp_int();
  VP_ASSUME(s >= OK && s <= 1000);
  return s;
}

/* --- the header of a geometry --- */
static int g_kind;
static uint32_t g_srid;
static size_t g_body;
static int body(WKBGeometry* out, int kind) {
  VP_ASSERT(out == &G && g_done++ == 0 && kind == (g_kind >= 4 ? 4 : g_kind), "the body of its type");
  VP_ASSERT(AT(g_body), "after the header");
  VP_ASSERT(LAST_SAME, "with the byte order and dimensions of the header");
  VP_ASSERT(out->num_sequences_ == 0 && out->num_geometries_ == 0 && out->geometry_type == g_kind && out->dimensions == g_d && out->srid == g_srid, "an empty geometry of that type, dimensions and SRID");
  out->num_sequences_ = vp_u32(), out->num_geometries_ = vp_u32();
  return g_rc = some_status();
}
static int vp_point(WKBGeometry* out) { return body(out, 1); }
static int vp_sequence(WKBGeometry* out) { return body(out, 2); }
static int vp_polygon(WKBGeometry* out) { return body(out, 3); }
static int vp_collection(WKBGeometry* out) { return body(out, 4); }
void harness_geometry(void) {
  bytes();
  last_endian_ = vp_u8(), last_dimensions_ = (enum GeoArrowDimensions)vp_int(), last_coord_stride_ = vp_u32();
  const size_t room = g_n - g_p;
  _Bool ok = room >= 5 && g_data[g_p] <= 1;
  if (ok) {
    g_e = g_data[g_p];
    const uint32_t w = u32_at(g_p + 1, g_e);
    g_srid = 0xFFFFFFFF;
    g_body = g_p + 5;
    if (w & 0x20000000) {
      ok = room >= 9;
      if (ok) g_srid = u32_at(g_p + 5, g_e);
      g_body += 4;
    }
    const uint32_t code = w & 0xFFFFFF;
    const _Bool z = (w & 0x80000000) || (code >= 1000 && code < 2000) || (code >= 3000 && code < 4000), m = (w & 0x40000000) || (code >= 2000 && code < 4000);
    g_d = 1 + z + 2 * m;
    g_stride = 2 + z + m;
    g_kind = (int)(code >= 3000 ? code - 3000 : code >= 2000 ? code - 2000 : code >= 1000 ? code - 1000 : code);
    ok = ok && g_kind >= 1 && g_kind <= 7;
  }
  const int rc = WKBParser_ParseGeometry(&G);
  if (!ok) { VP_ASSERT(rc != OK && g_done == 0, "no such header"); VP_REACH("refused"); return; }
  VP_ASSERT(g_done == 1 && rc == g_rc, "as its body ends");
  VP_ASSERT(G.geometry_type == g_kind && G.dimensions == g_d && G.srid == g_srid, "what the header says");
  VP_REACH("geometry");
}

/* --- bodies of coordinates --- */
static WKBSequence* vp_new_sequence(WKBGeometry* out) { VP_ASSERT(out == &G, "of the geometry"); g_appended++; return &SEQ; }
static void one_sequence(size_t at, uint32_t count, _Bool room, int rc) {
  VP_ASSERT((rc == OK) == room, "whole or refused");
  if (rc != OK) { VP_ASSERT(g_appended == 0, "nothing of it"); VP_REACH("refused"); return; }
  VP_ASSERT(g_appended == 1 && SEQ.data == g_data + at && SEQ.length == count && SEQ.stride == g_stride && SEQ.dimensions == g_d && SEQ.endianness == g_e, "the sequence the header describes");
  VP_ASSERT(AT(at + (size_t)count * 8 * g_stride) && LAST_SAME, "within the bytes, and on after it");
  VP_REACH("sequence");
}
void harness_point(void) {
  bytes();
  header();
  one_sequence(g_p, 1, g_n - g_p >= 8 * g_stride, WKBParser_ParsePoint(&G));
}
void harness_sequence(void) {
  bytes();
  header();
  uint32_t count = 0;
  _Bool room = g_n - g_p >= 4;
  if (room) {
    count = u32_at(g_p, g_e);
    room = g_n - g_p - 4 >= (size_t)count * 8 * g_stride;
  }
  one_sequence(g_p + 4, count, room, WKBParser_ParseSequence(&G));
}

/* --- bodies of parts --- */
static int part(size_t least) {
  VP_ASSERT(g_rc == OK, "nothing after a part that failed");
  VP_ASSERT(AT(g_q), "where the part before ended");
  g_rings++;
  g_rc = some_status();
  if (g_rc == OK) {
    size_t k = vp_size();
    VP_ASSUME(k >= least && k <= g_n - g_q);
    g_q += k;
  } else {
    size_t k = vp_size();
    VP_ASSUME(k <= g_n - g_q);
    g_q += k;
  }
  cursor_ = g_data + g_q, remaining_ = g_n - g_q;
  return g_rc;
}
static int vp_ring(WKBGeometry* out) {
  VP_ASSERT(out == &G && LAST_SAME, "a ring of the polygon");
  return part(4);
}
static WKBGeometry* vp_new_geometry(WKBGeometry* out) { VP_ASSERT(out == &G, "of the geometry"); g_appended++; return &CHILD; }
static int vp_child(WKBGeometry* out) {
  VP_ASSERT(out == &CHILD && g_appended == g_rings + 1, "a new geometry of the collection");
  VP_ASSERT(level_ == g_level + 1 && level_ <= 255, "nested no deeper than the parser supports");
  last_endian_ = vp_u8(), last_dimensions_ = (enum GeoArrowDimensions)vp_int(), last_coord_stride_ = vp_u32();
  int rc = part(5);
  if (rc != OK) level_ = vp_u32();
  return rc;
}
static void parts(int rc, uint32_t count, _Bool room) {
  if (!room) { VP_ASSERT(rc != OK && g_rings == 0, "no count"); VP_REACH("refused"); return; }
  if (rc == OK) { VP_ASSERT(g_rings == count && g_rc == OK && AT(g_q), "all of its parts, and on after them"); VP_REACH("parts"); }
  else if (g_rc != OK) { VP_ASSERT(rc == g_rc, "as the part that failed"); VP_REACH("failed"); }
}
void harness_polygon(void) {
  bytes();
  header();
  const _Bool room = g_n - g_p >= 4;
  const uint32_t count = room ? u32_at(g_p, g_e) : 0;
  if (room) g_q = g_p + 4;
  const int rc = WKBParser_ParsePolygon(&G);
  VP_ASSERT(rc == OK || !room || g_rc != OK, "fails only if it is cut off or a ring fails");
  parts(rc, count, room);
}
void harness_collection(void) {
  bytes();
  header();
  g_level = level_ = vp_u32();
  VP_ASSUME(g_level <= 255);
  const _Bool room = g_n - g_p >= 4;
  const uint32_t count = room ? u32_at(g_p, g_e) : 0;
  if (room) g_q = g_p + 4;
  const int rc = WKBParser_ParseCollection(&G);
  if (rc == OK) VP_ASSERT(level_ == g_level, "back on its level");
  VP_ASSERT(rc == OK || !room || g_rc != OK || (g_level == 255 && count > 0), "fails only if it is cut off, a geometry fails, or it is nested too deeply");
  parts(rc, count, room);
}

/* --- the whole --- */
static int vp_root(WKBGeometry* out) {
  VP_ASSERT(out == &G && g_done++ == 0 && level_ == 0 && data_ == g_data && cursor_ == g_data && remaining_ == g_n, "all of the bytes");
  g_q = vp_size();
  VP_ASSUME(g_q <= g_n);
  cursor_ = g_data + g_q, remaining_ = g_n - g_q;
  return g_rc = some_status();
}
void harness_parse(void) {
  bytes();
  data_ = cursor_ = 0, remaining_ = vp_size(), level_ = vp_u32();
  const uint8_t* end = 0;
  const _Bool c = vp_bool();
  const int rc = WKBParser_Parse_4(g_data, g_n, &G, c ? &end : (const uint8_t**)0);
  VP_ASSERT(g_done == 1, "one geometry");
  if (g_rc != OK) { VP_ASSERT(rc == g_rc, "as it failed"); VP_REACH("failed"); return; }
  VP_ASSERT(rc == (g_q == g_n ? OK : TOO_MANY_BYTES), "all bytes used, or too many");
  if (c) VP_ASSERT(end == g_data + g_q, "where it ends");
  VP_REACH("parsed");
}
static int64_t g_size;
static const uint8_t* g_end;
static int vp_bytes(const uint8_t* data, size_t size, WKBGeometry* out, const uint8_t** cursor) {
  VP_ASSERT(data == g_data && size == (size_t)g_size && out == &G && cursor == &g_end && g_done++ == 0, "those bytes");
  return g_rc = some_status();
}
void harness_view(void) {
  bytes();
  struct GeoArrowBufferView v;
  v.data = g_data;
  v.size_bytes = g_size = vp_i64();
  VP_ASSUME(g_size >= 0);
  const int rc = WKBParser_Parse_3(v, &G, &g_end);
  VP_ASSERT(g_done == 1 && rc == g_rc, "as those bytes");
  VP_REACH("view");
}
void harness_append(void) {
  bytes();
  static WKBSequence s[2];
  static WKBGeometry g[2];
  G.sequences_.vp_data = s, G.geometries_.vp_data = g;
  const uint32_t ns = G.num_sequences_, ng = G.num_geometries_;
  const size_t vs = G.sequences_.vp_size, vg = G.geometries_.vp_size;
  VP_ASSUME(ns < 0xFFFFFFFF && ng < 0xFFFFFFFF && vs >= ns && vg >= ng && vs <= 0xFFFFFFFF && vg <= 0xFFFFFFFF);
  WKBGeometry_AppendSequence(&G);
  VP_ASSERT(G.num_sequences_ == ns + 1 && g_at == ns && G.sequences_.vp_size == (vs > ns ? vs : ns + (size_t)1), "the next sequence");
  WKBGeometry_AppendGeometry(&G);
  VP_ASSERT(G.num_geometries_ == ng + 1 && g_at == ng && G.geometries_.vp_size == (vg > ng ? vg : ng + (size_t)1), "the next geometry");
  VP_ASSERT(WKBGeometry_NumSequences(&G) == ns + 1 && WKBGeometry_NumGeometries(&G) == ng + 1, "as many as were appended");
  WKBGeometry_Reset(&G);
  VP_ASSERT(G.num_sequences_ == 0 && G.num_geometries_ == 0 && G.srid == 0xFFFFFFFF && G.geometry_type == 0 && G.dimensions == 0, "empty");
  VP_REACH("append");
}
