/* WKT writing (C06, C20): the visitor callbacks, each from an arbitrary state of the writer. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

struct WKTWriterPrivate;
static size_t g_w;        /* witness byte of the values buffer: nothing already written changes */
static uint8_t g_wval;
static size_t g_base;     /* size of the values buffer before the call */
static struct ArrowBuffer* g_values;
int GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
static uint8_t* vp_realloc(struct ArrowBufferAllocator* a, uint8_t* ptr, int64_t old_size, int64_t new_size) {
  VP_ASSERT(new_size >= old_size && new_size > 0, "a block never shrinks");
  if (vp_bool() || new_size > (int64_t)VP_MAX_OBJ) return 0;
  uint8_t* p = vp_alloc(new_size);
  if (a == &g_values->allocator && ptr) {
    if (g_w < (size_t)old_size) p[g_w] = ptr[g_w];
  }
  return p;
}
static void vp_buffer(struct ArrowBuffer* b) {
  b->allocator.reallocate = &vp_realloc;
  b->capacity_bytes = vp_i64();
  b->size_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= 0 && b->capacity_bytes <= (int64_t)VP_MAX_OBJ);
  VP_ASSUME(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes);
  b->data = b->capacity_bytes ? vp_alloc(b->capacity_bytes) : 0;
}
static uint32_t ld32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

/* --- nanoarrow's bitmap builder, by contract: a sequence of bits --- */
static int64_t g_zeros, g_bw, g_bcap;
static int g_bwval;
static ArrowErrorCode vp_bitmap_reserve(struct ArrowBitmap* b, int64_t n) {
  VP_ASSERT(n >= 0, "space is reserved for zero or more bits");
  if (vp_bool()) { b->buffer.data = 0; return ENOMEM; }
  if (b->size_bits + n > 0 && !b->buffer.data) b->buffer.data = vp_alloc(1);
  if (b->size_bits + n > g_bcap) g_bcap = b->size_bits + n;
  return 0;
}
static void vp_bitmap_append_unsafe(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  VP_ASSERT(n >= 0 && b->size_bits + n <= g_bcap, "bits are appended to reserved space");
  if (g_bw >= b->size_bits && g_bw < b->size_bits + n) g_bwval = v != 0;
  if (!v) g_zeros += n;
  b->size_bits += n;
}
static ArrowErrorCode vp_bitmap_append(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  if (vp_bitmap_reserve(b, n)) return ENOMEM;
  vp_bitmap_append_unsafe(b, v, n);
  return 0;
}

/* Contract of nanoarrow's appends (proved by wkbw-put and wkbw-reserve): fail and empty the
 * buffer, or add exactly these bytes behind the ones already there. What the call under test
 * appends is logged. */
static char g_log[48];
static uint32_t g_logn;
static int g_puts;
static ArrowErrorCode vp_put(struct ArrowBuffer* b, const void* data, int64_t n) {
  VP_ASSERT(b == g_values, "text goes to the values");
  VP_ASSERT(n >= 0 && n <= 20 && g_logn + n <= 46, "a keyword or a bracket");
  VP_ASSERT(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes, "appended to a valid buffer");
  g_puts++;
  if (vp_bool()) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  for (int64_t k = 0; k < 20; k++) if (k < n) g_log[g_logn + k] = ((const char*)data)[k];
  g_logn += (uint32_t)n;
  b->size_bytes += n;
  b->capacity_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= b->size_bytes && b->capacity_bytes <= (int64_t)VP_MAX_OBJ);
  b->data = vp_alloc(1);
  return 0;
}
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n) {
  VP_ASSERT(b == g_values && n >= 0, "space is reserved in the values");
  VP_ASSERT(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes, "in a valid buffer");
  if (n <= b->capacity_bytes - b->size_bytes) return 0;
  if (vp_bool()) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  b->capacity_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= b->size_bytes && b->capacity_bytes - b->size_bytes >= n && b->capacity_bytes <= 2 * (int64_t)VP_MAX_OBJ);
  b->data = vp_alloc(1);
  return 0;
}
/* ordinates written since the coordinate began */
static int32_t g_nv, g_ords;
static int64_t g_n, g_coords;
static const struct GeoArrowCoordView* g_view;
static int64_t g_it;
static void vp_append_unsafe(struct ArrowBuffer* b, const void* data, int64_t n) {
  VP_ASSERT(b == g_values && n >= 1 && n <= 2 && b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes - n, "a separator is appended to reserved space");
  VP_ASSERT(__CPROVER_r_ok(data, n), "a separator");
  b->size_bytes += n;
}
/* Contract of GeoArrowPrintDouble: at most 40 bytes are written, at most 40 count. */
int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
  VP_ASSERT(precision <= 16, "a supported precision");
  VP_ASSERT((uint8_t*)result == g_values->data + g_values->size_bytes, "behind the text already there");
  VP_ASSERT(g_values->size_bytes >= 0 && g_values->capacity_bytes - g_values->size_bytes >= 40, "a number is printed into reserved space");
  VP_ASSERT(g_ords < g_nv, "as many numbers as ordinates");
  g_ords++;
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= 40);
  return n;
}
static int64_t g_max, g_fs;
#define INV_WTC(M, p, i) \
  M((i) >= 1 && (i) <= g_n && g_coords == (i), "coordinates are counted") \
  M(g_ords == g_nv, "every ordinate is written") \
  M((p)->values.size_bytes >= (int64_t)g_base && (p)->values.size_bytes <= (p)->values.capacity_bytes && (p)->values.capacity_bytes <= 2 * (int64_t)VP_MAX_OBJ, "the text only grows")
#define HAVOC_WTC(p, i) vp_modifies(&(p)->values, sizeof((p)->values)); (p)->values.size_bytes = vp_i64(); (p)->values.capacity_bytes = vp_i64(); (p)->values.data = vp_alloc(1); g_coords = vp_i64();
static int64_t g_it_size;
#define BEFORE_WTC(p, i) g_it = (i); g_ords = 0; g_it_size = (p)->values.size_bytes;
#define STEP_WTC(M, p, i) \
  M((i) == g_it + 1 && g_ords == g_nv, "every ordinate of the coordinate is written") \
  M(g_max < 0 || g_it_size - g_fs < g_max, "no coordinate is written past the limit") \
  g_coords++;

#include "geoarrow/wkt_writer.c"

const char* GeoArrowGeometryTypeString(enum GeoArrowGeometryType t) {
  switch (t) {
    case 1: return "POINT";
    case 2: return "LINESTRING";
    case 3: return "POLYGON";
    case 4: return "MULTIPOINT";
    case 5: return "MULTILINESTRING";
    case 6: return "MULTIPOLYGON";
    case 7: return "GEOMETRYCOLLECTION";
    default: return NULL;
  }
}
static struct WKTWriterPrivate P, O;
static struct GeoArrowVisitor V;
static struct GeoArrowError E;
static void start(void) {
  vp_init();
  struct WKTWriterPrivate any;
  P = any;
  /* a level that was refused stays above the limit until the next feature */
  VP_ASSUME(P.level >= -1 && P.level < 0x7fffffff);
  VP_ASSUME(P.length >= 0 && P.length < (int64_t)VP_MAX_OBJ && P.null_count >= 0 && P.null_count < (int64_t)VP_MAX_OBJ);
  VP_ASSUME(P.precision >= 0 && P.precision <= 16);
  VP_ASSUME(P.values_feat_start >= 0 && P.values_feat_start <= (int64_t)VP_MAX_OBJ);
  for (int k = 0; k < 32; k++) VP_ASSUME(P.i[k] >= 0 && P.i[k] < 1LL << 60);
  vp_buffer(&P.offsets);
  vp_buffer(&P.values);
  g_values = &P.values;
  g_base = P.values.size_bytes;
  vp_register(&P, sizeof(P));
  g_w = vp_size();
  if (g_w < g_base) g_wval = P.values.data[g_w];
  g_max = P.max_element_size_bytes;
  g_fs = P.values_feat_start;
  O = P;
  V.private_data = &P;
  V.error = &E;
}
#define KEPT (g_w >= g_base || (P.values.data && P.values.data[g_w] == g_wval))
static uint32_t wl(void) { uint32_t l = vp_u32(); VP_ASSUME(l < 32); return l; }
#define SAME_LEVEL(l) (P.i[l] == O.i[l] && P.geometry_type[l] == O.geometry_type[l])
#define OUTER(what) \
  VP_ASSERT(P.length == O.length && P.null_count == O.null_count && P.values_feat_start == O.values_feat_start && P.max_element_size_bytes == O.max_element_size_bytes && \
            P.precision == O.precision && P.offsets.size_bytes == O.offsets.size_bytes && P.offsets.data == O.offsets.data, "the rest of the writer is untouched")
static void opens(int ring) {
  start();
  int gt = vp_int(), d = vp_int();
  VP_ASSUME(gt >= 0 && gt <= 255 && d >= 0 && d <= 255);
  uint32_t l = wl();
  int rc = ring ? ring_start_wkt(&V) : geom_start_wkt(&V, gt, d);
  OUTER();
  VP_ASSERT(P.level == O.level + 1, "one level deeper");
  if (O.level > 30) {
    VP_ASSERT(rc == EINVAL && g_puts == 0, "nesting deeper than supported is refused and writes nothing");
    VP_REACH("too deep");
  }
  if (rc == 0) {
    int L = O.level + 1;
    VP_ASSERT(L <= 31, "a supported level");
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + g_logn, "only the opening is appended");
    VP_ASSERT(P.i[L] == 0 && P.geometry_type[L] == (ring ? 0 : gt), "the new level");
    if (L > 0) VP_ASSERT(P.i[L - 1] == O.i[L - 1] + 1, "the parent has one more member");
    if ((int)l < L - 1) VP_ASSERT(SAME_LEVEL(l), "outer levels stay");
    if (L > 0) VP_ASSERT(O.i[L - 1] > 0 ? g_logn >= 2 && g_log[0] == ',' && g_log[1] == ' ' : g_logn >= 1 && g_log[0] == '(', "the first member opens the list, others follow a comma");
    VP_REACH("opened");
  }
}
#ifndef VP_RING
#define VP_RING 0
#endif
void harness_opens(void) { opens(VP_RING); }
void harness_ends(void) {
  start();
  uint32_t l = wl();
  int rc = VP_RING ? ring_end_wkt(&V) : geom_end_wkt(&V);
  OUTER();
  VP_ASSERT(SAME_LEVEL(l), "no count changes");
  if (O.level < 0 || O.level > 31) {
    VP_ASSERT(rc == EINVAL && g_puts == 0 && P.level == O.level, "there is nothing to end");
    VP_REACH("nothing open");
  }
  if (rc == 0) {
    VP_ASSERT(P.level == O.level - 1, "one level up");
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + g_logn, "only the end is appended");
    VP_ASSERT(O.i[O.level] == 0 ? g_logn == 5 && g_log[0] == 'E' : g_logn <= 1 && (g_logn == 0 || g_log[0] == ')'), "EMPTY or a bracket");
    VP_REACH("closed");
  }
}
#ifdef VP_NV
void harness_coords(void) {
  struct GeoArrowCoordView view;
  start();
  g_n = view.n_coords = vp_i64();
  VP_ASSUME(g_n >= 0 && g_n <= 0xffffffffLL);
  g_nv = view.n_values = VP_NV;
  view.coords_stride = VP_STRIDE;
  double* src = vp_alloc(g_n * 32 + 64);
  for (int j = 0; j < 4; j++) view.values[j] = VP_STRIDE == 1 ? src + (size_t)g_n * j : src + j;
  g_view = &view;
  g_coords = 1;
  uint32_t l = wl();
  int rc = coords_wkt(&V, &view);
  OUTER();
  VP_ASSERT(P.level == O.level, "the level stays");
  VP_ASSERT(rc == 0 || SAME_LEVEL(l), "a failing call counts nothing");
  if (rc == EAGAIN) {
    VP_ASSERT(g_max >= 0 && P.values.size_bytes - g_fs >= g_max, "the retry code is reported past the limit only");
    VP_REACH("past the limit");
  }
  if (g_n > 0 && (O.level < 0 || O.level > 31)) VP_ASSERT(rc == EINVAL, "coordinates outside a supported level are refused");
  if (rc == 0 && g_n > 0) {
    VP_ASSERT(g_coords == g_n, "every coordinate is written");
    VP_ASSERT(P.i[O.level] == O.i[O.level] + g_n, "and counted");
    if ((int)l != O.level) VP_ASSERT(SAME_LEVEL(l), "other levels stay");
    VP_ASSERT(P.values.size_bytes >= (int64_t)g_base && P.values.size_bytes <= P.values.capacity_bytes, "the text stays inside its buffer");
    VP_REACH("coords");
  }
}
#endif
/* The array's structure: offsets, length, validity and null count, and the size limit. */
#define AGREE(n) (P.validity.buffer.data ? P.validity.size_bits == (n) && g_zeros == P.null_count : P.null_count == 0)
static void validity(void) {
  start();
  g_bw = vp_i64();
  g_zeros = P.null_count;
  g_bwval = vp_bool();
  P.validity.buffer.data = vp_bool() ? vp_alloc(1) : 0;
  if (!P.validity.buffer.data) P.validity.size_bits = g_zeros = 0;
  g_bcap = P.validity.size_bits;
}
void harness_feat(void) {
  validity();
  int64_t n = P.length; /* finished features */
  VP_ASSUME(AGREE(n) && P.null_count <= n);
  _Bool had = P.validity.buffer.data != 0;
  int old = g_bwval;
  int rc = feat_start_wkt(&V);
  VP_ASSERT(P.level == -1 && P.length == n + 1, "one more feature");
  VP_ASSERT(P.values_feat_start == (int64_t)g_base, "the element starts where its text starts");
  VP_ASSERT(KEPT && P.values.size_bytes == (int64_t)g_base, "the text is untouched");
  if (rc) return;
  VP_ASSERT(g_base <= 0x7fffffff, "text past the offset limit is refused");
  VP_ASSERT(P.offsets.size_bytes == O.offsets.size_bytes + 4 && ld32(P.offsets.data + O.offsets.size_bytes) == g_base, "the element's offset is where its text starts");
  int null = vp_bool();
  if (null && null_feat_wkt(&V)) return;
  /* what was written since */
  int64_t more = vp_i64();
  VP_ASSUME(more >= 0 && more <= (int64_t)VP_MAX_OBJ && (int64_t)g_base + more <= P.values.capacity_bytes);
  P.values.size_bytes += more;
  rc = feat_end_wkt(&V);
  if (g_max >= 0) {
    VP_ASSERT(P.values.size_bytes - P.values_feat_start <= g_max, "the element is within the limit");
    VP_ASSERT(P.values.size_bytes - P.values_feat_start == (more < g_max ? more : g_max), "and no shorter than it has to be");
  } else VP_ASSERT(P.values.size_bytes == (int64_t)g_base + more, "without a limit nothing is cut");
  VP_ASSERT(P.values.size_bytes >= (int64_t)g_base && KEPT, "earlier elements are untouched");
  if (rc) return;
  VP_ASSERT(P.length == n + 1 && AGREE(n + 1) && P.null_count == O.null_count + null, "length, validity and null count agree");
  if (P.validity.buffer.data) {
    if (g_bw == n) VP_ASSERT(g_bwval == !null, "the feature's own bit");
    if (g_bw >= 0 && g_bw < n) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier features");
    VP_REACH("bitmap");
  } else VP_REACH("no bitmap");
}
/* nanoarrow's array assembly, by contract: buffers are moved out of the writer. */
static struct ArrowBuffer g_set[3];
static struct ArrowBitmap g_setv;
static int g_fin, g_fin_rc;
static struct ArrowArray* g_array;
ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* a, enum ArrowType t) {
  VP_ASSERT(a == g_array && t == O.storage_type, "an array of the writer's type");
  return vp_bool() ? ENOMEM : 0;
}
void ArrowArraySetValidityBitmap(struct ArrowArray* a, struct ArrowBitmap* b) {
  VP_ASSERT(a == g_array, "the array");
  g_setv = *b;
  b->buffer.data = 0; b->buffer.size_bytes = b->buffer.capacity_bytes = 0; b->size_bits = 0;
}
ArrowErrorCode ArrowArraySetBuffer(struct ArrowArray* a, int64_t i, struct ArrowBuffer* b) {
  VP_ASSERT(a == g_array && i >= 1 && i <= 2, "offsets and data");
  g_set[i] = *b;
  b->data = 0; b->size_bytes = b->capacity_bytes = 0;
  return vp_bool() ? ENOMEM : 0;
}
ArrowErrorCode ArrowArrayFinishBuildingDefault(struct ArrowArray* a, struct ArrowError* e) {
  g_fin++;
  return g_fin_rc;
}
void harness_finish(void) {
  validity();
  VP_ASSUME(AGREE(P.length));
  O = P;
  struct ArrowArray array;
  g_array = &array;
  struct GeoArrowWKTWriter w;
  w.private_data = &P;
  g_fin_rc = vp_int();
  uint8_t* data = P.values.data;
  int rc = GeoArrowWKTWriterFinish(&w, &array, &E);
  if (rc == 0) {
    VP_ASSERT(g_fin == 1 && g_fin_rc == 0, "nanoarrow checks the finished array");
    VP_ASSERT(array.length == O.length && array.null_count == O.null_count, "length and null count");
    VP_ASSERT(g_setv.buffer.data == O.validity.buffer.data && g_setv.size_bits == O.validity.size_bits, "the validity bitmap");
    VP_ASSERT(g_set[2].data == data && g_set[2].size_bytes == O.values.size_bytes, "the element data");
    VP_ASSERT(O.values.size_bytes <= 0x7fffffff, "element data past the offset limit is refused");
    VP_ASSERT(g_set[1].size_bytes == O.offsets.size_bytes + 4 && ld32(g_set[1].data + O.offsets.size_bytes) == (uint32_t)O.values.size_bytes, "the last offset is the end of the data");
    VP_ASSERT(P.length == 0 && P.null_count == 0 && P.values.size_bytes == 0 && P.offsets.size_bytes == 0 && P.validity.buffer.data == 0 && P.validity.size_bits == 0, "the next array starts from an empty state");
    VP_REACH("finish");
  }
}
/* the settings */
void GeoArrowVisitorInitVoid(struct GeoArrowVisitor* v) { memset(v, 0, sizeof *v); }
void harness_visitor(void) {
  start();
  struct GeoArrowWKTWriter w;
  struct GeoArrowVisitor v;
  w.private_data = &P;
  GeoArrowWKTWriterInitVisitor(&w, &v);
  VP_ASSERT(P.precision >= 0 && P.precision <= 16, "the precision is a supported one");
  VP_ASSERT(w.precision < 0 || w.precision > 16 || P.precision == w.precision, "the precision asked for");
  VP_ASSERT(P.max_element_size_bytes == w.max_element_size_bytes && P.use_flat_multipoint == w.use_flat_multipoint, "the other settings");
  VP_ASSERT(v.private_data == &P && P.values.size_bytes == (int64_t)g_base && P.length == O.length && P.level == O.level, "what was written stays");
  VP_REACH("visitor");
}
#ifdef VP_PRINT
/* snprintf by contract: at most 40 bytes, the length is that of the whole text */
static char* g_out;
#undef GEOARROW_USE_RYU
#define GEOARROW_USE_RYU 0
#define GeoArrowPrintDouble GeoArrowPrintDouble0
static int64_t g_w40;
static int vp_snprintf(char* out, size_t n, const char* fmt, int prec, double f) {
  VP_ASSERT(out == g_out && n <= 40, "at most 40 bytes are printed");
  VP_ASSERT(prec >= 0 && prec <= 16, "a supported precision");
  int len = vp_int();
  VP_ASSUME(len >= 1 && len < 400);
  for (size_t k = 0; k < 40; k++) if (k < n && k < (size_t)len) { out[k] = (char)vp_u8(); VP_ASSUME(out[k] != 0); }
  if ((size_t)len < n) out[len] = 0; else out[n - 1] = 0;
  /* exponent form with 16 digits: sign, digit, point, 16 digits, e, sign, 3 digits; inf, nan */
  if (fmt[4] == 'e') VP_ASSUME(len <= 24);
  return len;
}
static void* vp_memchr(const void* p, int c, size_t n) {
  VP_ASSERT(p == (void*)g_out && n <= 40, "only the text is searched");
  for (size_t k = 0; k < 40; k++) if (k < n && g_out[k] == (char)c) return g_out + k;
  return 0;
}
#define memchr vp_memchr
#define snprintf vp_snprintf
#include "geoarrow/double_print.c"
void harness_print(void) {
  vp_init();
  g_out = vp_alloc(40);
  uint32_t precision = vp_u32();
  VP_ASSUME(precision <= 16);
  int64_t n = GeoArrowPrintDouble0(vp_double(), precision, g_out);
  VP_ASSERT(n >= 0 && n <= 40, "at most 40 bytes count");
  VP_REACH("number");
}
#endif
