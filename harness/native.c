/* C11, C12, C20: the native writer. VP_LV: how many levels of offsets the target type has. */
#include "vp.h"
#ifndef VP_LV
#define VP_LV 2
#endif
#ifndef VP_KIND
#define VP_KIND 3
#endif
#include "geoarrow/geoarrow_type.h"
static int vp_coords_append(struct GeoArrowBuilder* b, const struct GeoArrowCoordView* c, enum GeoArrowDimensions d, int64_t o, int64_t n);
static int vp_coords_reserve(struct GeoArrowBuilder* b, int64_t n);
static int vp_offset_append(struct GeoArrowBuilder* b, int32_t i, const int32_t* data, int64_t n);
static int vp_buffer_append(struct GeoArrowBuilder* b, int64_t i, struct GeoArrowBufferView v);
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
struct GeoArrowNativeWriterPrivate;
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
static ArrowErrorCode vp_bitmap_reserve(struct ArrowBitmap* b, int64_t n);
static void vp_bitmap_append_unsafe(struct ArrowBitmap* b, uint8_t v, int64_t n);
static ArrowErrorCode vp_bitmap_append(struct ArrowBitmap* b, uint8_t v, int64_t n);
static ArrowErrorCode vp_bitmap_resize(struct ArrowBitmap* b, int64_t n, char s);
static void vp_bitmap_clear(struct ArrowBitmap* b);
static void* vp_malloc(int64_t n);
static void vp_free(void* p);
static int vp_size_append(struct GeoArrowNativeWriter* w, int32_t o, int64_t n, struct GeoArrowError* e);
static int vp_lines(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e);
static int vp_polys(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e);
static int vp_multi(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, struct GeoArrowError* e);
static int vp_empty(struct GeoArrowNativeWriter* w, struct GeoArrowError* e);
static int vp_offsets(struct GeoArrowNativeWriter* w, struct GeoArrowGeometryView g, int64_t n, struct GeoArrowError* e);
static int vp_validity(struct GeoArrowNativeWriter* w, int is_valid);
static void vp_coords_unsafe(struct GeoArrowNativeWriter* w, struct GeoArrowGeometryView g);
static int vo_size(struct GeoArrowNativeWriter* w, int32_t o, int64_t n, struct GeoArrowError* e);
static int vo_lines(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e);
static int vo_polys(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e);
static int vo_multi(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, struct GeoArrowError* e);
static int vp_offset_append_size(struct GeoArrowBuilder* b, int32_t i, const int32_t* data, int64_t n);
static int64_t vp_num_coords(struct GeoArrowGeometryView g);
static void vp_copy_coords(struct GeoArrowGeometryView g, uint8_t** out, const int32_t* strides, enum GeoArrowDimensions d);
static void vp_array_move(struct ArrowArray* src, struct ArrowArray* dst);
static void vp_array_release(struct ArrowArray* a);
static void vp_lines_before(const struct GeoArrowGeometryNode* node);
static _Bool vp_lines_inv(const struct GeoArrowGeometryNode* node, int64_t i);
static _Bool vp_polys_inv(const struct GeoArrowGeometryNode* node, int64_t i);
static void vp_lines_havoc(int64_t* i);
static void vp_polys_havoc(int64_t* i);
#define INV_LINES(M, node, i) M(vp_lines_inv(node, i), "one offset for each node")
#define HAVOC_LINES(node, i) vp_lines_havoc(&(i)), (node) = vp_node()
#define BEFORE_LINES(node, i)
#define STEP_LINES(M, node, i)
#define INV_POLYS(M, node, i) M(vp_polys_inv(node, i), "one offset and its sequences for each node")
#define HAVOC_POLYS(node, i) vp_polys_havoc(&(i)), (node) = vp_node()
#define BEFORE_POLYS(node, i)
#define STEP_POLYS(M, node, i)
static const struct GeoArrowGeometryNode* vp_node(void);
#include "geoarrow/native_writer.c"

static struct GeoArrowNativeWriterPrivate P, O;
static struct GeoArrowNativeWriter W;
static struct GeoArrowVisitor V;
static struct GeoArrowError E;
#define VIEW P.builder.view
#define MANY ((int64_t)1 << 37)

/* --- nanoarrow's bitmap builder, by contract: a sequence of bits --- */
static int64_t g_zeros, g_bw, g_bcap;
static int g_bwval;
static ArrowErrorCode vp_bitmap_reserve(struct ArrowBitmap* b, int64_t n) {
  VP_ASSERT(b == &P.validity && n >= 0, "space is reserved for zero or more bits");
  if (vp_bool()) { b->buffer.data = 0; return ENOMEM; }
  if (b->size_bits + n > 0 && !b->buffer.data) b->buffer.data = vp_alloc(1);
  if (b->size_bits + n > g_bcap) g_bcap = b->size_bits + n;
  return 0;
}
static void vp_bitmap_append_unsafe(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  VP_ASSERT(b == &P.validity && n >= 0 && b->size_bits + n <= g_bcap, "bits are appended to reserved space");
  if (g_bw >= b->size_bits && g_bw < b->size_bits + n) g_bwval = v != 0;
  if (!v) g_zeros += n;
  b->size_bits += n;
  b->buffer.size_bytes = (b->size_bits + 7) >> 3;
}
static ArrowErrorCode vp_bitmap_append(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  if (vp_bitmap_reserve(b, n)) return ENOMEM;
  vp_bitmap_append_unsafe(b, v, n);
  return 0;
}
struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) { struct ArrowBufferAllocator a; return a; }
static int g_cleared;
static ArrowErrorCode vp_bitmap_resize(struct ArrowBitmap* b, int64_t n, char s) {
  VP_ASSERT(b == &P.validity && n == 0, "the bitmap is emptied");
  if (vp_bool()) return ENOMEM;
  b->size_bits = b->buffer.size_bytes = 0;
  g_zeros = 0;
  return 0;
}
static void vp_bitmap_clear(struct ArrowBitmap* b) { VP_ASSERT(b == &P.validity, "the bitmap"); g_cleared++; }

/* --- the builder, by contract (C21): offsets are appended to a level, coordinates at the end --- */
static int64_t g_last[4]; /* the last offset of each level */
static int g_off_calls[4], g_coord_calls;
static _Bool g_init; /* the output is being set up */
static int64_t count(int i) { return VIEW.buffers[i + 1].size_bytes >> 2; }
static int64_t child(int i) { return i == VP_LV - 1 ? VIEW.coords.size_coords : count(i + 1) - 1; }
static int64_t elements(void) { return VP_LV == 0 ? VIEW.coords.size_coords : count(0) - 1; }
static int vp_offset_append(struct GeoArrowBuilder* b, int32_t i, const int32_t* data, int64_t n) {
  VP_ASSERT(b == &P.builder && i >= 0 && i < VP_LV && n == 1, "one offset, to a level of the type");
  if (g_init) VP_ASSERT(*data == 0 && VIEW.buffers[i + 1].size_bytes == 0, "every level starts with the offset zero");
  else VP_ASSERT(*data >= g_last[i] && (int64_t)*data == child(i), "an offset is not before the last one, and the length of its child");
  if (vp_bool()) return ENOMEM;
  g_last[i] = *data;
  VIEW.buffers[i + 1].size_bytes += 4;
  g_off_calls[i]++;
  return 0;
}
static const struct GeoArrowCoordView* g_cv;
static enum GeoArrowDimensions g_dims;
static int vp_coords_append(struct GeoArrowBuilder* b, const struct GeoArrowCoordView* c, enum GeoArrowDimensions d, int64_t o, int64_t n) {
  VP_ASSERT(b == &P.builder && o == 0 && n == c->n_coords && g_coord_calls == 0, "all coordinates of the view, once");
  if (c == &P.empty_coord) {
    VP_ASSERT(n == 1 && c->coords_stride == 1 && c->n_values >= 2 && c->n_values <= 4, "one coordinate for an empty point");
    for (int j = 0; j < 4; j++) VP_ASSERT(c->values[j] == P.empty_coord_values + j && ((const uint8_t*)c->values[j])[7] == 0x7f && ((const uint8_t*)c->values[j])[6] == 0xf8, "all of its ordinates NaN");
  } else VP_ASSERT(c == g_cv && d == g_dims, "the coordinates of the event, in the dimensions announced");
  g_coord_calls++;
  if (vp_bool()) return ENOMEM;
  VIEW.coords.size_coords += n;
  return 0;
}
static int vs(struct GeoArrowVisitor* v) { return 0; }
static int vg(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) { return 0; }
static int vc(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) { return 0; }
void GeoArrowVisitorInitVoid(struct GeoArrowVisitor* v) {
  v->feat_start = v->null_feat = v->ring_start = v->ring_end = v->geom_end = v->feat_end = &vs;
  v->geom_start = &vg;
  v->coords = &vc;
  v->error = 0;
  v->private_data = 0;
}
static void state(void) {
  vp_init();
  struct GeoArrowNativeWriterPrivate any;
  P = any;
  W.private_data = &P;
  VIEW.n_offsets = VP_LV;
  VIEW.coords.size_coords = vp_i64();
  VP_ASSUME(VIEW.coords.size_coords >= 0 && VIEW.coords.size_coords <= MANY);
  for (int i = 0; i < VP_LV; i++) {
    int64_t c = vp_i64();
    VP_ASSUME(c >= 1 && c <= MANY);
    VIEW.buffers[i + 1].size_bytes = c * 4;
    g_last[i] = vp_i64();
  }
  VIEW.schema_view.geometry_type = VP_KIND;
  int d = vp_int();
  VP_ASSUME(d >= 1 && d <= 4);
  VIEW.schema_view.dimensions = d;
  for (int j = 0; j < 4; j++) P.empty_coord.values[j] = P.empty_coord_values + j;
  memcpy(P.empty_coord_values, kEmptyPointCoords, sizeof(P.empty_coord_values));
  P.empty_coord.n_coords = P.empty_coord.coords_stride = 1;
  VP_ASSUME(P.empty_coord.n_values >= 2 && P.empty_coord.n_values <= 4);
  P.validity.buffer.data = vp_bool() ? vp_alloc(1) : 0;
  VP_ASSUME(P.validity.size_bits >= 0 && P.validity.size_bits <= MANY && P.null_count >= 0 && P.null_count <= MANY);
  P.validity.buffer.size_bytes = (P.validity.size_bits + 7) >> 3;
  g_zeros = P.null_count;
  g_bw = vp_i64();
  g_bwval = vp_bool();
  if (!P.validity.buffer.data) P.validity.size_bits = P.validity.buffer.size_bytes = g_zeros = 0;
  g_bcap = P.validity.size_bits;
  P.output_initialized = 1;
}
/* what holds after any events at all: offsets do not decrease and stay within their child */
static _Bool offsets_ok(void) {
  _Bool ok = VIEW.coords.size_coords >= 0;
  for (int i = 0; i < VP_LV; i++) ok = ok && (VIEW.buffers[i + 1].size_bytes & 3) == 0 && count(i) >= 1 && g_last[i] >= 0 && g_last[i] <= child(i);
  return ok;
}
/* the last offsets account for all of their children: so it is between features */
static _Bool flush(void) {
  _Bool ok = 1;
  for (int i = 0; i < VP_LV; i++) ok = ok && g_last[i] == child(i);
  return ok;
}
/* --- the state of a feature --- */
static int64_t g_at;      /* elements when it was started */
static _Bool g_null;      /* it was announced null */
static _Bool g_clean;     /* it started on flush offsets */
#define USED (VP_LV == 0 ? 1 : VP_LV == 3 ? 3 : 2) /* of the sizes */
static _Bool feature_ok(void) {
  _Bool ok = P.feat_is_null == g_null && P.level > -0x7fffffff && P.level < 0x7fffffff && P.nesting_multipoint >= 0 && P.nesting_multipoint < 0x7fffffff;
  ok = ok && P.last_dimensions == g_dims;
  for (int k = 0; k < USED; k++) ok = ok && P.size[k] >= 0 && P.size[k] <= MANY;
  if (VP_LV == 0) ok = ok && VIEW.coords.size_coords == g_at + P.size[0];
  if (VP_LV == 1) ok = ok && elements() == g_at + P.size[0] && (!(g_clean && P.size[0] > 0 && P.size[1] == 0) || g_last[0] == VIEW.coords.size_coords);
  if (VP_LV == 2) ok = ok && elements() == g_at && (!(g_clean && P.size[1] == 0) || g_last[1] == VIEW.coords.size_coords);
  if (VP_LV == 3) ok = ok && elements() == g_at && (!(g_clean && P.size[2] == 0) || g_last[2] == VIEW.coords.size_coords) && (!(g_clean && P.size[1] == 0) || g_last[1] == count(2) - 1);
  return ok;
}
static int64_t g_e0;
void harness_start(void) {
  state();
  VP_ASSUME(offsets_ok());
  g_dims = P.last_dimensions;
  VP_ASSERT(GeoArrowNativeWriterInitVisitor(&W, &V) == 0 && V.private_data == &W, "the visitor of the type");
  g_at = elements();
  VP_ASSERT(V.feat_start(&V) == 0, "starting a feature does not fail");
  g_null = 0;
  g_clean = flush();
  VP_ASSERT(P.level == 0 && elements() == g_at && offsets_ok(), "a new feature, nothing written");
  for (int k = 0; k < VP_LV; k++) VP_ASSERT(P.size[k] == 0, "a new feature, nothing written");
  if (VP_LV != 1) P.nesting_multipoint = 0; /* only linestrings and multipoints use it */
  VP_ASSERT(feature_ok(), "the state of a feature");
  VP_REACH("start");
}
static struct GeoArrowCoordView C;
static void begin(void) {
  state();
  g_null = vp_bool();
  g_clean = vp_bool();
  g_at = vp_i64();
  g_dims = (enum GeoArrowDimensions)P.last_dimensions;
  VP_ASSUME(g_at >= 0 && g_at <= MANY && offsets_ok() && feature_ok());
  VP_ASSERT(GeoArrowNativeWriterInitVisitor(&W, &V) == 0, "the visitor of the type");
  O = P;
}
#define SAME_COUNTS(a, b, c) ((VP_LV < 1 || count(0) == n0 + (a)) && (VP_LV < 2 || count(1) == n1 + (b)) && (VP_LV < 3 || count(2) == n2 + (c)))
#define COUNTS const int64_t n0 = VP_LV > 0 ? count(0) : 0, n1 = VP_LV > 1 ? count(1) : 0, n2 = VP_LV > 2 ? count(2) : 0, nc = VIEW.coords.size_coords;
/* Everything that happens inside of a feature. */
void harness_inside(void) {
  begin();
  COUNTS
  const int k = vp_int();
  int rc = 0;
  if (k == 0) {
    rc = V.null_feat(&V);
    g_null = 1;
    VP_ASSERT(rc == 0 && SAME_COUNTS(0, 0, 0), "a null feature is noted");
  } else if (k == 1) {
    int t = vp_int(), d = vp_int();
    VP_ASSUME(t >= 0 && t <= 7 && d >= 0 && d <= 4);
    rc = V.geom_start(&V, t, d);
    g_dims = d;
    VP_ASSERT(rc == 0 && SAME_COUNTS(0, 0, 0), "dimensions are noted");
    const _Bool seq = t == 2 || t == 4, poly = t == 3 || t == 5;
    if (VP_LV > 0) VP_ASSERT(P.level == O.level + (seq || (VP_LV == 3 && poly) ? 1 : 0), "sequences (and sequences of sequences) are a level");
    if (VP_LV == 1) VP_ASSERT(P.nesting_multipoint == (t == 4 ? 1 : t == 1 && O.nesting_multipoint ? O.nesting_multipoint + 1 : O.nesting_multipoint), "points of a multipoint are no sequences");
  } else if (k == 2) {
    rc = V.ring_start(&V);
    VP_ASSERT(rc == 0 && SAME_COUNTS(0, 0, 0), "a ring is a level");
    if (VP_LV > 0) VP_ASSERT(P.level == O.level + 1, "a ring is a level");
  } else if (k == 3) {
    g_cv = &C;
    C.n_coords = vp_i64();
    VP_ASSUME(C.n_coords >= 0 && C.n_coords <= MANY && nc + C.n_coords <= MANY);
    for (int j = 0; j < USED; j++) VP_ASSUME(P.size[j] + C.n_coords <= MANY);
    rc = V.coords(&V, &C);
    VP_ASSERT(g_coord_calls == 1 && VIEW.coords.size_coords == nc + (rc ? 0 : C.n_coords) && SAME_COUNTS(0, 0, 0), "the coordinates are added");
    if (rc) { VP_ASSERT(offsets_ok(), "offsets stay in order"); return; }
  } else {
    const _Bool ring = k == 4;
    rc = ring ? V.ring_end(&V) : V.geom_end(&V);
    if (rc) { VP_ASSERT(offsets_ok() && SAME_COUNTS(0, 0, 0), "offsets stay in order"); return; }
    if (VP_LV == 0) VP_ASSERT(SAME_COUNTS(0, 0, 0), "nothing to end");
    if (VP_LV == 1) {
      const _Bool point = !ring && O.nesting_multipoint == 2, end = ring || (!point && O.level == 1);
      VP_ASSERT(SAME_COUNTS(end, 0, 0) && P.level == O.level - end, "the end of a sequence is an element");
    }
    if (VP_LV == 2) {
      const _Bool end = ring || O.level == 1;
      VP_ASSERT(SAME_COUNTS(0, end && O.size[1] > 0, 0) && P.level == O.level - end && (!end || P.size[1] == 0), "the end of a sequence with coordinates is a sequence");
    }
    if (VP_LV == 3) {
      const _Bool end = ring || O.level == 2, poly = !ring && O.level == 1;
      VP_ASSERT(P.level == O.level - (end || poly), "one level up");
      VP_ASSERT(SAME_COUNTS(0, poly && O.size[1] > 0, end && O.size[2] > 0), "the end of a sequence with coordinates is a sequence, the end of its parent with sequences is one of the next level");
      if (end) VP_ASSERT(P.size[1] == O.size[1] + (O.size[2] > 0) && P.size[2] == 0, "sequences are counted");
    }
    VP_REACH("end");
  }
  VP_ASSUME(P.level > -0x7fffffff && P.level < 0x7fffffff && P.nesting_multipoint < 0x7fffffff && P.size[0] <= MANY && (USED < 2 || P.size[1] <= MANY)); /* fewer than 2^31 events */
  VP_ASSERT(offsets_ok() && feature_ok(), "the state of a feature");
  VP_ASSERT(P.validity.size_bits == O.validity.size_bits && P.validity.buffer.data == O.validity.buffer.data && P.null_count == O.null_count, "validity is left to the end of the feature");
  if (k != 3) VP_ASSERT(VIEW.coords.size_coords == nc, "no coordinates");
  VP_REACH("inside");
}
#define AGREE(n) (P.validity.buffer.data ? P.validity.size_bits == (n) && g_zeros == P.null_count : P.null_count == 0)
void harness_end(void) {
  begin();
  COUNTS
  const _Bool before = AGREE(g_at) && P.null_count <= g_at, had = P.validity.buffer.data != 0;
  const int old = g_bwval;
  int rc = V.feat_end(&V);
  VP_ASSERT(offsets_ok(), "offsets stay in order");
  VP_ASSERT(VIEW.coords.size_coords >= nc, "nothing is taken back");
  if (rc) { VP_REACH("failed"); return; }
  VP_ASSERT(elements() == g_at + 1, "exactly one element");
  if (g_clean) VP_ASSERT(flush(), "every coordinate and sequence belongs to an element");
  if (VP_LV == 3) VP_ASSERT(SAME_COUNTS(1, O.size[1] > 0 || O.size[2] > 0, O.size[2] > 0), "what was left open is ended");
  if (VP_LV == 2) VP_ASSERT(SAME_COUNTS(1, O.size[1] > 0, 0), "what was left open is ended");
  if (VP_LV == 0 && O.size[0] == 0) VP_ASSERT(g_coord_calls == 1, "an empty point is one coordinate");
  if (before) {
    VP_ASSERT(AGREE(g_at + 1) && P.null_count == O.null_count + g_null, "length, validity and null count agree");
    if (P.validity.buffer.data) {
      if (g_bw == g_at) VP_ASSERT(g_bwval == !g_null, "the feature's own bit");
      if (g_bw >= 0 && g_bw < g_at) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier features");
      VP_REACH("bitmap");
    } else { VP_ASSERT(!g_null, "a null needs the bitmap"); VP_REACH("no bitmap"); }
  }
}

/* --- the life of a writer --- */
static int g_live, g_builders;
static int64_t g_app0;
static void* vp_malloc(int64_t n) {
  VP_ASSERT(!g_live && n == sizeof(P), "one writer");
  if (vp_bool()) return 0;
  g_live = 1;
  return &P;
}
static void vp_free(void* p) { VP_ASSERT(g_live && p == (void*)&P, "freed once"); g_live = 0; }
GeoArrowErrorCode GeoArrowBuilderInitFromType(struct GeoArrowBuilder* b, enum GeoArrowType type) {
  VP_ASSERT(b == &P.builder && (int)type == 77, "the type asked for");
  if (vp_bool()) return EINVAL;
  VIEW.n_offsets = VP_LV;
  g_builders++;
  return 0;
}
void GeoArrowBuilderReset(struct GeoArrowBuilder* b) { VP_ASSERT(b == &P.builder && g_builders == 1, "reset once"); g_builders--; }
static uint8_t* g_vdata;
static int64_t g_vsize;
static int vp_buffer_append(struct GeoArrowBuilder* b, int64_t i, struct GeoArrowBufferView v) {
  VP_ASSERT(b == &P.builder && i == 0 && v.data == g_vdata && v.size_bytes == g_vsize && v.size_bytes > 0 && g_app0 == 0, "the validity bitmap, once");
  if (vp_bool()) return ENOMEM;
  g_app0++;
  return 0;
}
static int g_finished, g_moved, g_released;
static void on_release(struct ArrowArray* a) {}
GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* b, struct ArrowArray* array, struct GeoArrowError* error) {
  VP_ASSERT(b == &P.builder && g_finished == 0, "finished once");
  VP_ASSERT(g_app0 == (g_vsize > 0), "with the validity bitmap if there is one");
  if (vp_bool()) return EINVAL;
  g_finished = 1;
  array->release = &on_release;
  array->length = elements();
  array->null_count = g_vsize > 0 ? -1 : 0;
  for (int i = 0; i < VP_LV; i++) VIEW.buffers[i + 1].size_bytes = 0;
  VIEW.coords.size_coords = VIEW.coords.capacity_coords = 0;
  g_init = 1;
  return 0;
}
static void vp_array_move(struct ArrowArray* src, struct ArrowArray* dst) { VP_ASSERT(src->release != 0, "an array to move"); *dst = *src; src->release = 0; g_moved++; }
static void vp_array_release(struct ArrowArray* a) { VP_ASSERT(a->release != 0, "an array to release"); a->release = 0; g_released++; }
static void fresh(void) {
  VP_ASSERT(P.output_initialized && P.null_count == 0 && P.validity.size_bits == 0, "no nulls");
  for (int i = 0; i < VP_LV; i++) VP_ASSERT(count(i) == 1 && g_last[i] == 0, "every level starts with the offset zero");
  VP_ASSERT(VIEW.coords.size_coords == 0 && elements() == 0 && flush(), "the next array starts empty");
  for (int k = 0; k < 3; k++) VP_ASSERT(P.size[k] == 0, "the next feature starts empty");
  VP_ASSERT(P.level == 0 && P.feat_is_null == 0 && P.nesting_multipoint == 0, "the next feature starts empty");
}
void harness_finish(void) {
  state();
  g_live = g_builders = 1;
  VP_ASSUME(offsets_ok());
  const int64_t n = elements();
  VP_ASSUME(AGREE(n) && P.null_count <= n);
  g_vdata = P.validity.buffer.data;
  g_vsize = P.validity.buffer.size_bytes;
  const int64_t nulls = P.null_count, zeros = g_zeros;
  struct ArrowArray out;
  out.release = 0;
  int rc = GeoArrowNativeWriterFinish(&W, &out, &E);
  if (rc) { VP_ASSERT(out.release == 0 && g_released == g_finished, "no output on failure"); VP_REACH("failed"); return; }
  VP_ASSERT(g_finished && g_moved == 1 && out.release == &on_release && out.length == n, "one element for each feature");
  VP_ASSERT(out.null_count == nulls && out.null_count == zeros, "the null count is the number of zero bits");
  if (!g_app0) VP_ASSERT(out.null_count == 0, "without a bitmap there are no nulls");
  fresh();
  VP_REACH("finished");
}
void harness_life(void) {
  vp_init();
  g_init = 1;
  int rc = GeoArrowNativeWriterInit(&W, (enum GeoArrowType)77);
  if (rc) { VP_ASSERT(!g_live && g_builders == 0, "a failed init leaves nothing behind"); VP_REACH("failed"); return; }
  VP_ASSERT(W.private_data == (void*)&P && P.validity.buffer.data == 0, "a writer");
  fresh();
  VP_ASSERT(P.empty_coord.n_coords == 1 && P.empty_coord.coords_stride == 1 && P.empty_coord.n_values >= 2 && P.empty_coord.n_values <= 4, "the empty coordinate");
  for (int j = 0; j < 4; j++) VP_ASSERT(P.empty_coord.values[j] == P.empty_coord_values + j && P.empty_coord_values[j] != P.empty_coord_values[j], "the empty coordinate is NaN");
  GeoArrowNativeWriterReset(&W);
  VP_ASSERT(!g_live && g_builders == 0 && g_cleared == 1, "all is released");
  VP_REACH("life");
}

/* --- appending geometries (C12) --- */
static int g_size_calls;
static int32_t g_so[2];
static int64_t g_sn[2];
static int g_seen_rc;
/* one offset, size more than the last */
void harness_size(void) {
  state();
  const int o = vp_int();
  VP_ASSUME(o >= 0 && o < VP_LV);
  struct GeoArrowWritableBufferView* b = &VIEW.buffers[o + 1];
  b->data.data = vp_alloc((size_t)b->size_bytes);
  const int32_t last = vp_int();
  VP_ASSUME(last >= 0);
  b->data.as_int32[(b->size_bytes >> 2) - 1] = last;
  const int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= MANY);
  g_last[o] = last;
  g_app0 = (int64_t)last + n; /* what the offset must be */
  const int64_t s = b->size_bytes;
  int rc = GeoArrowNativeWriterAppendSize(&W, o, n, &E);
  if (n > 0x7fffffff || last + n > 0x7fffffff) { VP_ASSERT(rc == EOVERFLOW && b->size_bytes == s, "an offset past 2^31 - 1 is refused"); VP_REACH("overflow"); return; }
  if (rc) { VP_ASSERT(b->size_bytes == s, "nothing is added"); return; }
  VP_ASSERT(b->size_bytes == s + 4 && g_last[o] == last + n, "one offset, size more than the last");
  VP_REACH("size");
}
static int vp_offset_append_size(struct GeoArrowBuilder* b, int32_t i, const int32_t* data, int64_t n) {
  VP_ASSERT(b == &P.builder && i >= 0 && i < VP_LV && n == 1 && (int64_t)*data == g_app0, "one offset, size more than the last");
  if (vp_bool()) return ENOMEM;
  g_last[i] = *data;
  VIEW.buffers[i + 1].size_bytes += 4;
  return 0;
}
/* --- monitors: which sizes are appended to which level --- */
static struct GeoArrowGeometryNode* g_nodes;
static int64_t g_nn, g_i;
static const struct GeoArrowGeometryNode* g_node; /* the node that is next */
static int g_o, g_phase;
static _Bool g_in_polys;
static const struct GeoArrowGeometryNode* vp_node(void) { return g_node; }
static _Bool there(const struct GeoArrowGeometryNode* n) { return __CPROVER_same_object(n, g_nodes) && n >= g_nodes && n < g_nodes + g_nn; }
static int vp_size_append(struct GeoArrowNativeWriter* w, int32_t o, int64_t n, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && o == g_o && g_phase == 0 && there(g_node) && n == g_node->size, "the size of the node, to its level");
  if (vp_bool()) return EINVAL;
  VP_ASSUME(n <= 0x7fffffff); /* more is refused */
  if (g_in_polys) g_phase = 1; else { g_node++; g_i++; }
  return 0;
}
static int vp_lines(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && g_phase == 1 && node == g_node + 1 && end == g_nodes + g_nn && n == g_node->size && o == g_o + 1, "the sequences of the node, to the next level");
  if (vp_bool() || end - node < n) return EINVAL;
  g_node += 1 + (int64_t)n;
  g_phase = 0;
  g_i++;
  return 0;
}
static _Bool vp_lines_inv(const struct GeoArrowGeometryNode* node, int64_t i) { return node == g_node && i == g_i && i >= 0; }
static _Bool vp_polys_inv(const struct GeoArrowGeometryNode* node, int64_t i) { return node == g_node && i == g_i && i >= 0 && g_phase == 0; }
static int64_t g_start, g_n;
static void vp_lines_havoc(int64_t* i) {
  int64_t k = vp_i64();
  VP_ASSUME(k >= 0 && k <= g_n && g_start + k <= g_nn);
  g_i = *i = k;
  g_node = g_nodes + g_start + k;
}
static void vp_polys_havoc(int64_t* i) {
  int64_t k = vp_i64(), at = vp_i64();
  VP_ASSUME(k >= 0 && k <= g_n && at >= g_start && at <= g_nn && (k > 0 || at == g_start));
  g_i = *i = k;
  g_node = g_nodes + at;
}
static void nodes(void) {
  state();
  g_nn = vp_i64();
  VP_ASSUME(g_nn >= 0 && g_nn <= ((int64_t)1 << 32));
  g_nodes = vp_alloc((size_t)g_nn * 64);
  g_start = vp_i64();
  VP_ASSUME(g_start >= 0 && g_start <= g_nn);
  g_node = g_nodes + g_start;
  g_o = vp_int();
  VP_ASSUME(g_o >= 0 && g_o <= 2);
  g_n = vp_u32();
}
void harness_lines(void) {
  nodes();
  int rc = GeoArrowNativeWriterAppendLinestringOffsets(&W, g_node, g_nodes + g_nn, (uint32_t)g_n, g_o, &E);
  if (g_n > g_nn - g_start) VP_ASSERT(rc == EINVAL && g_i == 0, "too few nodes: refused before any is read");
  if (rc) return;
  VP_ASSERT(g_i == g_n, "one offset for each node");
  VP_REACH("lines");
}
void harness_polys(void) {
  nodes();
  g_in_polys = 1;
  int rc = GeoArrowNativeWriterAppendPolygonOffsets(&W, g_node, g_nodes + g_nn, (uint32_t)g_n, g_o, &E);
  if (rc) return;
  VP_ASSERT(g_i == g_n && g_phase == 0, "one offset and its sequences for each node");
  VP_REACH("polys");
}
static int g_poly_calls;
static int vp_polys(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && g_phase == 1 && node == g_node + 1 && end == g_nodes + g_nn && n == g_node->size && o == 1, "the polygons of the node, to the next level");
  g_poly_calls++;
  return vp_bool() ? EINVAL : 0;
}
void harness_multi(void) {
  nodes();
  VP_ASSUME(there(g_node));
  g_in_polys = 1;
  g_o = 0;
  int rc = GeoArrowNativeWriterAppendMultiPolygonOffsets(&W, g_node, g_nodes + g_nn, &E);
  if (rc) return;
  VP_ASSERT(g_phase == 1 && g_poly_calls == 1, "one offset and its polygons");
  VP_REACH("multi");
}

/* --- which sizes for which geometry: what is called, in order --- */
enum { NONE, SIZE, LINES, POLYS, MULTI };
static int g_call[3], g_calls;
static int64_t g_arg[3];
static int32_t g_lev[3];
static const struct GeoArrowGeometryNode* g_nd[3];
static struct GeoArrowGeometryView G;
static int64_t g_cc;
static int record(int what, const struct GeoArrowGeometryNode* node, int64_t n, int32_t o) {
  VP_ASSERT(g_calls < 2, "no more than two calls");
  g_call[g_calls] = what;
  g_nd[g_calls] = node;
  g_arg[g_calls] = n;
  g_lev[g_calls] = o;
  g_calls++;
  return vp_bool() ? EINVAL : 0;
}
static int vo_size(struct GeoArrowNativeWriter* w, int32_t o, int64_t n, struct GeoArrowError* e) { VP_ASSERT(w == &W && n >= 0 && o < VP_LV, "a level of the type"); return record(SIZE, 0, n, o); }
static int vo_lines(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && end == G.root + G.size_nodes && o == VP_LV - 1, "the innermost level");
  return record(LINES, node, n, o);
}
static int vo_polys(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, uint32_t n, int32_t o, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && end == G.root + G.size_nodes && o == VP_LV - 2, "the level above the innermost");
  return record(POLYS, node, n, o);
}
static int vo_multi(struct GeoArrowNativeWriter* w, const struct GeoArrowGeometryNode* node, const struct GeoArrowGeometryNode* end, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && end == G.root + G.size_nodes && VP_LV == 3, "multipolygons have three levels");
  return record(MULTI, node, 1, 0);
}
#define CALL(k, c, n, a, o) (g_call[k] == (c) && g_nd[k] == (n) && g_arg[k] == (a) && g_lev[k] == (o))
const char* GeoArrowGeometryTypeString(enum GeoArrowGeometryType t) { return 0; }
static void geom(void) {
  G.size_nodes = vp_i64();
  VP_ASSUME(G.size_nodes >= 1 && G.size_nodes <= ((int64_t)1 << 32));
  G.root = (struct GeoArrowGeometryNode*)vp_alloc((size_t)G.size_nodes * 64);
  g_cc = vp_i64();
  VP_ASSUME(g_cc >= 0 && g_cc <= ((int64_t)1 << 62));
}
static struct GeoArrowGeometryNode g_root;
void harness_offsets(void) {
  state();
  G.root = &g_root;
  g_root.geometry_type = vp_u8(), g_root.size = vp_u32();
  G.size_nodes = vp_i64();
  VP_ASSUME(G.size_nodes >= 1 && G.size_nodes <= ((int64_t)1 << 32));
  g_cc = vp_i64();
  VP_ASSUME(g_cc >= 0 && g_cc <= ((int64_t)1 << 62));
  const int t = G.root->geometry_type;
  const uint32_t n = G.root->size;
  /* any number of levels (CBMC loses the union's other members at constant indices) */
  const int o = VP_LV == 0 ? 0 : vp_int();
  VIEW.n_offsets = o;
  int32_t last = 0;
  if (VP_LV > 0) {
    VP_ASSUME(o >= 1 && o <= 3);
    struct GeoArrowWritableBufferView* b = &VIEW.buffers[o];
    const int64_t c = vp_i64();
    VP_ASSUME(c >= 1 && c <= MANY);
    b->size_bytes = c * 4;
    b->data.data = vp_alloc((size_t)b->size_bytes);
    last = vp_int();
    b->data.as_int32[(b->size_bytes >> 2) - 1] = last;
  }
  int rc = GeoArrowNativeWriterAppendOffsets(&W, G, g_cc, &E);
  if (rc) { VP_REACH("refused"); return; }
  /* the offsets of a geometry of type t in an array of VP_KIND */
  if (VP_KIND == 1) VP_ASSERT(g_calls == 0 && g_cc <= 1, "a point has no offsets and one coordinate");
  if (VP_KIND == 2) VP_ASSERT(g_calls == 1 && (t == 2 ? CALL(0, LINES, G.root, 1, 0) : t == 5 && n <= 1 && CALL(0, LINES, G.root + 1, 1, 0)), "a linestring, or the only one of a multilinestring");
  if (VP_KIND == 3) VP_ASSERT(g_calls == 1 && (t == 3 ? CALL(0, POLYS, G.root, 1, 0) : t == 6 && n <= 1 && CALL(0, POLYS, G.root + 1, 1, 0)), "a polygon, or the only one of a multipolygon");
  if (VP_KIND == 4) VP_ASSERT(g_calls == 1 && (t == 1 || t == 4) && CALL(0, SIZE, 0, g_cc, 0), "a point or multipoint: as many as there are coordinates");
  if (VP_KIND == 5) VP_ASSERT(t == 2 ? g_calls == 2 && CALL(0, SIZE, 0, 1, 0) && CALL(1, LINES, G.root, 1, 1) : t == 5 && g_calls == 1 && CALL(0, POLYS, G.root, 1, 0), "one linestring, or a multilinestring");
  if (VP_KIND == 6) VP_ASSERT(t == 3 ? g_calls == 2 && CALL(0, SIZE, 0, 1, 0) && CALL(1, POLYS, G.root, 1, 1) : t == 6 && g_calls == 1 && CALL(0, MULTI, G.root, 1, 0), "one polygon, or a multipolygon");
  if (VP_LV > 0) VP_ASSERT(last == VIEW.coords.size_coords + g_cc, "the offsets account for exactly the coordinates of the geometry");
  VP_REACH("offsets");
}
/* --- the whole of an append --- */
static int g_step, g_rc_off, g_rc_res, g_valid_calls;
static int64_t vp_num_coords(struct GeoArrowGeometryView g) { VP_ASSERT(g.root == G.root && g.size_nodes == G.size_nodes, "the geometry's coordinates"); return g_cc; }
static int vp_empty(struct GeoArrowNativeWriter* w, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && g_step == 0, "an empty element, first");
  if (vp_bool()) return EINVAL;
  g_step = 10;
  return 0;
}
static int vp_offsets(struct GeoArrowNativeWriter* w, struct GeoArrowGeometryView g, int64_t n, struct GeoArrowError* e) {
  VP_ASSERT(w == &W && g.root == G.root && g.size_nodes == G.size_nodes && n == g_cc && g_step == 0, "offsets first");
  for (int i = 0; i < VP_LV; i++) {
    int64_t k = vp_i64();
    VP_ASSUME(k >= 0 && k <= MANY);
    VIEW.buffers[i + 1].size_bytes += 4 * k;
  }
  g_step = 1;
  return vp_bool() ? EINVAL : 0;
}
static int vp_coords_reserve(struct GeoArrowBuilder* b, int64_t n) {
  VP_ASSERT(b == &P.builder && n == g_cc && g_step == 1, "space for all coordinates");
  if (vp_bool()) return ENOMEM;
  g_step = 2;
  return 0;
}
static void vp_coords_unsafe(struct GeoArrowNativeWriter* w, struct GeoArrowGeometryView g) {
  VP_ASSERT(w == &W && g.root == G.root && g.size_nodes == G.size_nodes && g_step == 2 && VIEW.coords.size_coords == O.builder.view.coords.size_coords, "into reserved space, after what is there");
  g_step = 10;
}
static int vp_validity(struct GeoArrowNativeWriter* w, int v) {
  VP_ASSERT(w == &W && v == g_null && g_step == 10, "valid or null, once the element is there");
  g_valid_calls++;
  if (vp_bool()) return ENOMEM;
  g_step = 11;
  return 0;
}
void harness_append(void) {
  state();
  geom();
  g_null = 1; /* is_valid */
  O = P;
  int rc = GeoArrowNativeWriterAppend(&W, G, &E);
  if (rc) {
    if (g_step < 10) for (int i = 0; i < VP_LV; i++) VP_ASSERT(VIEW.buffers[i + 1].size_bytes == O.builder.view.buffers[i + 1].size_bytes, "a geometry that cannot be appended leaves nothing behind");
    if (g_step < 10) VP_ASSERT(VIEW.coords.size_coords == O.builder.view.coords.size_coords && g_valid_calls == 0, "a geometry that cannot be appended leaves nothing behind");
    VP_REACH("failed");
    return;
  }
  VP_ASSERT(g_step == 11 && g_valid_calls == 1, "offsets, coordinates and validity");
  VP_ASSERT(VIEW.coords.size_coords == O.builder.view.coords.size_coords + g_cc, "exactly the coordinates of the geometry");
  VP_REACH("append");
}
void harness_null(void) {
  state();
  int rc = GeoArrowNativeWriterAppendNull(&W);
  if (rc) return;
  VP_ASSERT(g_step == 11 && g_valid_calls == 1, "an empty element that is null");
  VP_REACH("null");
}
void harness_empty(void) {
  state();
  VP_ASSUME(offsets_ok());
  const int64_t n = elements(), nc = VIEW.coords.size_coords;
  int rc = GeoArrowNativeWriterAppendEmpty(&W, &E);
  if (rc) { VP_ASSERT(elements() == n && VIEW.coords.size_coords == nc, "nothing is added"); return; }
  if (VP_LV == 0) VP_ASSERT(g_coord_calls == 1 && VIEW.coords.size_coords == nc + 1, "one empty coordinate");
  else VP_ASSERT(g_calls == 1 && CALL(0, SIZE, 0, 0, 0), "one empty element");
  VP_REACH("empty");
}
void harness_validity(void) {
  state();
  VP_ASSUME(offsets_ok());
  const int64_t n = elements() - 1; /* the new element is there already */
  VP_ASSUME(n >= 0 && AGREE(n) && P.null_count <= n);
  const _Bool had = P.validity.buffer.data != 0, valid = vp_bool();
  const int old = g_bwval;
  const int64_t nulls = P.null_count;
  if (GeoArrowNativeWriterAppendValidity(&W, valid)) return;
  VP_ASSERT(AGREE(n + 1) && P.null_count == nulls + !valid, "length, validity and null count agree");
  if (P.validity.buffer.data) {
    if (g_bw == n) VP_ASSERT(g_bwval == valid, "the element's own bit");
    if (g_bw >= 0 && g_bw < n) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier elements");
    VP_REACH("bitmap");
  } else { VP_ASSERT(valid, "a null needs the bitmap"); VP_REACH("no bitmap"); }
}
static int g_copied;
static double* g_mem[4];
static void vp_copy_coords(struct GeoArrowGeometryView g, uint8_t** out, const int32_t* strides, enum GeoArrowDimensions d) {
  VP_ASSERT(g.root == G.root && g.size_nodes == G.size_nodes && d == (enum GeoArrowDimensions)VIEW.schema_view.dimensions && g_copied == 0, "the geometry, in the target's dimensions, once");
  for (int j = 0; j < VIEW.coords.n_values; j++) {
    VP_ASSERT(out[j] == (uint8_t*)(VIEW.coords.values[j] + (int64_t)VIEW.coords.coords_stride * VIEW.coords.size_coords), "after the coordinates that are there");
    VP_ASSERT(strides[j] == VIEW.coords.coords_stride * 8, "an ordinate to its own place");
  }
  g_copied++;
}
void harness_coords(void) {
  state();
  geom();
  const int nv = VIEW.schema_view.dimensions == 1 ? 2 : VIEW.schema_view.dimensions == 4 ? 4 : 3;
  VIEW.coords.n_values = nv;
  const _Bool inter = vp_bool();
  VIEW.coords.coords_stride = inter ? nv : 1;
  double* block = (double*)vp_alloc((size_t)(MANY * 8));
  for (int j = 0; j < 4; j++) VIEW.coords.values[j] = j >= nv ? 0 : inter ? block + j : (double*)vp_alloc((size_t)(MANY * 8));
  VP_ASSUME(VIEW.coords.size_coords <= MANY >> 3);
  GeoArrowNativeWriterAppendCoordsUnsafe(&W, G);
  VP_ASSERT(g_copied == 1, "the coordinates are copied");
  VP_REACH("coords");
}
