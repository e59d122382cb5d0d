/* C23: the array reader dispatches every storage type to the right parser or view. VP_T is the type. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
#ifndef VP_T
#define VP_T GEOARROW_TYPE_WKB
#endif
#define IS_WKT (VP_T == GEOARROW_TYPE_WKT || VP_T == GEOARROW_TYPE_LARGE_WKT || VP_T == GEOARROW_TYPE_WKT_VIEW)
#define IS_WKB (VP_T == GEOARROW_TYPE_WKB || VP_T == GEOARROW_TYPE_LARGE_WKB || VP_T == GEOARROW_TYPE_WKB_VIEW)
#define IS_ARROW ((IS_WKT && VP_T != GEOARROW_TYPE_WKT) || (IS_WKB && VP_T != GEOARROW_TYPE_WKB))
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }

static struct GeoArrowVisitor V;
static int64_t g_off, g_len, g_f, g_it;
static int g_ph, g_rc;
static const struct GeoArrowArrayView* g_av;
static const struct ArrowArrayView* g_aav;
static void *g_wkb, *g_wkt; /* the readers */
static int64_t g_asked;     /* the element whose nullness was asked */
static _Bool g_null;
static const void* g_item;
static int64_t g_n;
static _Bool g_native;
#define X (g_av->offset[0] + g_off + g_f)
static int event(void) {
  VP_ASSERT(g_rc == 0, "no event after one that failed");
  VP_ASSERT(g_f < g_len, "no event past the window");
  return g_rc = vp_int();
}
static _Bool is_null(void) {
  if (IS_ARROW) {
    VP_ASSERT(g_asked == g_f, "the element's own validity decides");
    return g_null;
  }
  return g_av->validity_bitmap != 0 && !((g_av->validity_bitmap[X >> 3] >> (X & 7)) & 1);
}
static int on_feat_start(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 0 && is_null(), "only a null is a feature without parser");
  g_ph = 1;
  return event();
}
static int on_null(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 1, "null within its feature");
  g_ph = 2;
  return event();
}
static int on_feat_end(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 2, "feature after null");
  int rc = event();
  g_ph = 0;
  g_f++;
  return rc;
}
static int parsed(const void* data, int64_t n, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && g_ph == 0 && !is_null(), "an element that is not null is parsed, with the caller's visitor");
  if (IS_ARROW) VP_ASSERT(data == g_item && n == g_n, "the bytes of the element");
  else VP_ASSERT((const uint8_t*)data == g_av->data + g_av->offsets[0][X] && n == g_av->offsets[0][X + 1] - g_av->offsets[0][X], "the bytes of the element, offset applied once");
  int rc = event();
  g_f++;
  return rc;
}
GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader, struct GeoArrowStringView s, struct GeoArrowVisitor* v) {
  VP_ASSERT(IS_WKT && (void*)reader == g_wkt, "text goes to the WKT reader");
  return parsed(s.data, s.size_bytes, v);
}
GeoArrowErrorCode GeoArrowWKBReaderVisit(struct GeoArrowWKBReader* reader, struct GeoArrowBufferView s, struct GeoArrowVisitor* v) {
  VP_ASSERT(IS_WKB && (void*)reader == g_wkb, "bytes go to the WKB reader");
  return parsed(s.data, s.size_bytes, v);
}
GeoArrowErrorCode GeoArrowArrayViewVisitNative(const struct GeoArrowArrayView* a, int64_t offset, int64_t length, struct GeoArrowVisitor* v) {
  VP_ASSERT(!IS_WKB && !IS_WKT, "only native arrays are visited as such");
  VP_ASSERT(a == g_av && offset == g_off && length == g_len && v == &V && !g_native, "the window the caller asked for");
  g_native = 1;
  return g_rc = vp_int();
}
static int8_t vp_view_is_null(const struct ArrowArrayView* a, int64_t i) {
  VP_ASSERT(a == g_aav && i == g_off + g_f, "the element's own validity decides");
  g_asked = g_f;
  return g_null = vp_bool();
}
static void item(const struct ArrowArrayView* a, int64_t i) {
  VP_ASSERT(a == g_aav && i == g_off + g_f && g_asked == g_f && !g_null, "the element's own bytes");
  g_item = (const void*)vp_poison + (vp_int() & 7);
  g_n = vp_i64();
}
static struct ArrowStringView vp_view_string(const struct ArrowArrayView* a, int64_t i) {
  struct ArrowStringView s;
  item(a, i);
  s.data = (const char*)g_item;
  s.size_bytes = g_n;
  return s;
}
static struct ArrowBufferView vp_view_bytes(const struct ArrowArrayView* a, int64_t i) {
  struct ArrowBufferView s;
  item(a, i);
  s.data.data = g_item;
  s.size_bytes = g_n;
  return s;
}
#define INV_FEAT(M, i) M((i) >= 0 && (i) <= g_len && g_f == (i) && g_ph == 0 && g_rc == 0 && (!IS_ARROW || g_asked < (i)), "one element after the other")
#define HAVOC_FEAT(i) g_f = (i); g_asked = -1;
static void valid(int64_t i) {
  g_it = i;
  if (!IS_ARROW && i < g_len) VP_ASSUME(g_av->offsets[0][X] >= 0 && g_av->offsets[0][X] <= g_av->offsets[0][X + 1]);
}
#define BEFORE_FEAT(i) valid(i);
#define STEP_FEAT(M, i) M((i) == g_it + 1, "one element after the other")

static void* vp_malloc(int64_t n);
static void vp_free(void* p);
static void vp_init_arrow(struct ArrowArrayView* a, enum ArrowType t);
static int vp_set_arrow(struct ArrowArrayView* a, const struct ArrowArray* array, struct ArrowError* e);
#include "geoarrow/array_reader.c"

static struct GeoArrowArrayReaderPrivate P;
static struct GeoArrowArrayReader R;
static int64_t size(void) {
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= (int64_t)(VP_MAX_OBJ >> 6));
  return n;
}
void harness_visit(void) {
  vp_init();
  V.feat_start = &on_feat_start;
  V.null_feat = &on_null;
  V.feat_end = &on_feat_end;
  R.private_data = &P;
  P.type = VP_T;
  g_av = &P.src.geoarrow;
  g_aav = &P.src.arrow;
  g_wkt = &P.wkt_reader;
  g_wkb = &P.wkb_reader;
  g_asked = -1;
  int64_t n = size();
  if (!IS_ARROW) {
    P.src.geoarrow.offset[0] = size();
    n = P.src.geoarrow.length[0] = size();
    int32_t* o = malloc((P.src.geoarrow.offset[0] + n + 1) * sizeof(int32_t));
    VP_ASSUME(o != 0);
    P.src.geoarrow.offsets[0] = o;
    P.src.geoarrow.validity_bitmap = 0;
    if (vp_bool()) P.src.geoarrow.validity_bitmap = vp_alloc((P.src.geoarrow.offset[0] + n + 7) >> 3);
    P.src.geoarrow.data = vp_alloc((size_t)1 << 31);
  }
  g_off = vp_i64();
  g_len = vp_i64();
  VP_ASSUME(g_off >= 0 && g_len >= 0 && g_off <= n && g_len <= n - g_off);
  int rc = GeoArrowArrayReaderVisit(&R, g_off, g_len, &V);
  VP_ASSERT(rc == g_rc, "the code of the event that failed is returned");
  if (!IS_WKB && !IS_WKT) VP_ASSERT(g_native == (g_len != 0), "a native window is visited");
  else if (rc == 0) VP_ASSERT(g_f == g_len && g_ph == 0, "every element of the window is visited");
  if (rc == 0) VP_REACH("window");
}

/* --- life cycle --- */
static struct GeoArrowSchemaView g_sv;
static int g_made, g_wkts, g_wkbs, g_views, g_storage, g_geo, g_arr;
static _Bool g_live, g_set;
static const struct ArrowArray* g_array;
static void* vp_malloc(int64_t n) {
  VP_ASSERT(n == sizeof(P) && !g_live, "one allocation");
  if (vp_bool()) return 0;
  g_live = 1;
  return &P;
}
static void vp_free(void* p) {
  VP_ASSERT(p == (void*)&P && g_live, "freed once");
  VP_ASSERT(g_wkts == 0 && g_wkbs == 0, "readers are released first");
  g_live = 0;
}
static void vp_init_arrow(struct ArrowArrayView* a, enum ArrowType t) {
  VP_ASSERT(a == &P.src.arrow, "the reader's own view");
  g_views++;
  g_storage = t;
}
GeoArrowErrorCode GeoArrowArrayViewInitFromType(struct GeoArrowArrayView* a, enum GeoArrowType t) {
  VP_ASSERT(a == &P.src.geoarrow, "the reader's own view");
  if (vp_bool()) return g_rc = EINVAL;
  g_views++;
  g_geo = t;
  return 0;
}
GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* r) {
  VP_ASSERT(r == &P.wkt_reader, "the reader's own parser");
  if (vp_bool()) return g_rc = ENOMEM;
  g_wkts++;
  r->private_data = (void*)vp_poison;
  return 0;
}
GeoArrowErrorCode GeoArrowWKBReaderInit(struct GeoArrowWKBReader* r) {
  VP_ASSERT(r == &P.wkb_reader, "the reader's own parser");
  if (vp_bool()) return g_rc = ENOMEM;
  g_wkbs++;
  r->private_data = (void*)vp_poison;
  return 0;
}
void GeoArrowWKTReaderReset(struct GeoArrowWKTReader* r) { VP_ASSERT(r == &P.wkt_reader && g_wkts == 1, "a parser is released once"); g_wkts--; }
void GeoArrowWKBReaderReset(struct GeoArrowWKBReader* r) { VP_ASSERT(r == &P.wkb_reader && g_wkbs == 1, "a parser is released once"); g_wkbs--; }
GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* s, const struct ArrowSchema* schema, struct GeoArrowError* error) {
  if (vp_bool()) return g_rc = EINVAL;
  *s = g_sv;
  return 0;
}
static int vp_set_arrow(struct ArrowArrayView* a, const struct ArrowArray* array, struct ArrowError* e) {
  VP_ASSERT(a == &P.src.arrow && array == g_array && !g_set, "the array is attached to the view that is read");
  g_set = 1;
  g_arr = 2;
  return g_rc = vp_int();
}
GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* a, const struct ArrowArray* array, struct GeoArrowError* e) {
  VP_ASSERT(a == &P.src.geoarrow && array == g_array && !g_set, "the array is attached to the view that is read");
  g_set = 1;
  g_arr = 1;
  return g_rc = vp_int();
}
void harness_life(void) {
  vp_init();
  int t = vp_int();
  VP_ASSUME(t >= 0 && t < 100008);
  g_sv.type = t;
  _Bool wkt = t == GEOARROW_TYPE_WKT || t == GEOARROW_TYPE_LARGE_WKT || t == GEOARROW_TYPE_WKT_VIEW;
  _Bool wkb = t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_WKB_VIEW;
  _Bool arrow = (wkt && t != GEOARROW_TYPE_WKT) || (wkb && t != GEOARROW_TYPE_WKB);
  int rc = vp_bool() ? GeoArrowArrayReaderInitFromType(&R, (enum GeoArrowType)t) : GeoArrowArrayReaderInitFromSchema(&R, 0, 0);
  if (rc) {
    VP_ASSERT(!g_live && g_wkts == 0 && g_wkbs == 0, "a failed init leaves nothing behind");
    VP_ASSERT(g_rc == 0 ? rc == ENOMEM : rc == g_rc, "the cause is returned");
    VP_REACH("failed");
    return;
  }
  VP_ASSERT(g_rc == 0 && g_live && R.private_data == (void*)&P, "the reader is made");
  VP_ASSERT(g_wkts == wkt && g_wkbs == wkb && g_views == 1, "one view, and the parser of the type");
  if (arrow) VP_ASSERT(g_storage == (t == GEOARROW_TYPE_LARGE_WKB ? NANOARROW_TYPE_LARGE_BINARY : t == GEOARROW_TYPE_WKB_VIEW ? NANOARROW_TYPE_BINARY_VIEW
      : t == GEOARROW_TYPE_LARGE_WKT ? NANOARROW_TYPE_LARGE_STRING : NANOARROW_TYPE_STRING_VIEW), "the storage of the type");
  else VP_ASSERT(g_geo == t, "the view of the type");
  struct ArrowArray a;
  g_array = &a;
  rc = GeoArrowArrayReaderSetArray(&R, &a, 0);
  VP_ASSERT(g_set && rc == g_rc && g_arr == (arrow ? 2 : 1), "the array is attached to the view that is read");
  const struct GeoArrowArrayView* out = 0;
  rc = GeoArrowArrayReaderArrayView(&R, &out);
  VP_ASSERT(arrow ? rc == ENOTSUP && out == 0 : rc == 0 && out == &P.src.geoarrow, "the view, where there is one");
  GeoArrowArrayReaderReset(&R);
  VP_ASSERT(!g_live && g_wkts == 0 && g_wkbs == 0 && R.private_data == 0, "all is released");
  VP_REACH("life");
}
