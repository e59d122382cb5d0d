/* WKB writing (C03, C04, C20): the visitor callbacks and the array writer, each from an
 * arbitrary state of the writer. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

struct WKBWriterPrivate;
static size_t g_w;        /* witness byte of the values buffer: nothing already written changes */
static uint8_t g_wval;
static uint8_t* g_data;   /* where the values buffer's bytes are */
static size_t g_base;     /* size of the values buffer before the call */
static struct ArrowBuffer* g_values;
int GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }

/* Contract of the allocator: fails, or gives a block of that size with the old contents (of
 * which the witness byte stands for any). */
static uint8_t* vp_realloc(struct ArrowBufferAllocator* a, uint8_t* ptr, int64_t old_size, int64_t new_size) {
  VP_ASSERT(new_size >= old_size && new_size > 0, "a block never shrinks");
  if (vp_bool() || new_size > (int64_t)VP_MAX_OBJ) return 0;
  uint8_t* p = vp_alloc(new_size);
  if (a == &g_values->allocator && ptr) {
    if (g_w < (size_t)old_size) p[g_w] = ptr[g_w];
  }
  if (a == &g_values->allocator) g_data = p;
  return p;
}
static void vp_buffer(struct ArrowBuffer* b) {
  b->allocator.reallocate = &vp_realloc;
  b->capacity_bytes = vp_i64();
  b->size_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= 0 && b->capacity_bytes <= (int64_t)VP_MAX_OBJ);
  VP_ASSUME(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes);
  b->data = b->capacity_bytes ? vp_alloc(b->capacity_bytes) : 0;
}
static uint32_t ld32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint64_t ld64(const uint8_t* p) { return (uint64_t)ld32(p) | (uint64_t)ld32(p + 4) << 32; }

/* --- nanoarrow's bitmap builder, by contract: a sequence of bits --- */
static int64_t g_zeros;   /* zero bits in it */
static int64_t g_bw;      /* witness bit */
static int g_bwval;
static int64_t g_bcap;    /* bits reserved */
static ArrowErrorCode vp_bitmap_reserve(struct ArrowBitmap* b, int64_t n) {
  VP_ASSERT(n >= 0, "space is reserved for zero or more bits");
  if (vp_bool()) { b->buffer.data = 0; return ENOMEM; }
  if (b->size_bits + n > 0 && !b->buffer.data) b->buffer.data = vp_alloc(1);
  if (b->size_bits + n > g_bcap) g_bcap = b->size_bits + n;
  return 0;
}
static void vp_bitmap_append_unsafe(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  VP_ASSERT(n >= 0 && b->size_bits + n <= g_bcap, "bits are appended to reserved space");
  if (g_bw >= b->size_bits && g_bw < b->size_bits + n) g_bwval = v != 0;
  if (!v) g_zeros += n;
  b->size_bits += n;
}
static ArrowErrorCode vp_bitmap_append(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  if (vp_bitmap_reserve(b, n)) return ENOMEM;
  vp_bitmap_append_unsafe(b, v, n);
  return 0;
}

static int64_t g_n;        /* coordinates reported */
static int32_t g_nv;
static const struct GeoArrowCoordView* g_view;
/* POS3(i) = 24 * i, as a specification function; the facts used are the assumptions below */
uint64_t __CPROVER_uninterpreted_pos3(int64_t i);
#define POS3(i) __CPROVER_uninterpreted_pos3((int64_t)(i))
static int64_t g_n;
static void pos3_facts(int64_t i) {
  VP_ASSUME(POS3(0) == 0 && POS3(g_n) == (uint64_t)(3 * g_n * 8));
  if (i >= 0 && i < g_n) VP_ASSUME(POS3(i + 1) == POS3(i) + 24 && POS3(i) < POS3(g_n) && POS3(i + 1) <= POS3(g_n));
}
#define NB(i, nv) ((nv) == 1 ? (uint64_t)(i) << 3 : (nv) == 2 ? (uint64_t)(i) << 4 : (nv) == 3 ? POS3(i) : (uint64_t)(i) << 5)
#define INV_CW(M, b, i) \
  M((i) >= 0 && (i) <= g_n, "coordinates are counted") \
  M((b)->data == g_data && (b)->size_bytes == (int64_t)(g_base + NB((i), g_nv)), "the buffer grows by one coordinate at a time") \
  M((b)->capacity_bytes >= (int64_t)(g_base + NB(g_n, g_nv)), "the space was reserved")
static int64_t g_it;
static int32_t g_calls;
#define HAVOC_CW(b, i) vp_modifies(&(b)->size_bytes, 8); (b)->size_bytes = vp_i64();
#define BEFORE_CW(b, i) if (g_nv == 3) pos3_facts(i); g_it = (i); g_calls = 0;
#define STEP_CW(M, b, i) \
  M((i) == g_it + 1, "one coordinate after the other") \
  M(g_calls == g_nv, "every ordinate of the coordinate is appended")
/* Contract of ArrowBufferAppendUnsafe, proved by wkbw-append-unsafe: the bytes go behind the
 * ones already there, which keep their values. */
static void vp_append_unsafe(struct ArrowBuffer* b, const void* data, int64_t n) {
  VP_ASSERT(b == g_values, "coordinates go to the values");
  VP_ASSERT(n == 8 && b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes - 8, "a value is appended to reserved space");
  int32_t k = g_calls++;
  VP_ASSERT(k < g_nv && k < 4 && data == (const void*)(g_view->values[k < 4 ? k : 0] + g_it * g_view->coords_stride), "ordinates are appended in order");
  VP_ASSERT(__CPROVER_r_ok(data, 8), "only the view's values are read");
  b->size_bytes += 8;
}

/* Contract of nanoarrow's appends, proved by wkbw-put: fail and empty the buffer, or add
 * exactly these bytes behind the ones already there (which keep their values, though they may
 * move). The bytes appended by the call under test are logged. */
static uint8_t g_log[48];
static uint32_t g_logn;
static ArrowErrorCode vp_put(struct ArrowBuffer* b, const void* data, int64_t n) {
  VP_ASSERT(n >= 0 && g_logn + n <= 40, "a header or an empty point");
  VP_ASSERT(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes, "appended to a valid buffer");
  VP_ASSERT(b == g_values, "element data goes to the values");
  if (vp_bool()) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  for (int64_t k = 0; k < n; k++) g_log[g_logn + k] = ((const uint8_t*)data)[k];
  g_logn += (uint32_t)n;
  b->size_bytes += n;
  b->capacity_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= b->size_bytes && b->capacity_bytes <= (int64_t)VP_MAX_OBJ);
  b->data = vp_alloc(1);
  return 0;
}
static ArrowErrorCode vp_put8(struct ArrowBuffer* b, uint8_t v) { return vp_put(b, &v, 1); }
static ArrowErrorCode vp_put32(struct ArrowBuffer* b, uint32_t v) { return vp_put(b, &v, 4); }

/* Contract of ArrowBufferReserve, proved by wkbw-reserve. */
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n) {
  VP_ASSERT(b == g_values && n >= 0, "space is reserved in the values");
  if (n <= b->capacity_bytes - b->size_bytes) return 0;
  if (vp_bool()) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  b->capacity_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= b->size_bytes && b->capacity_bytes - b->size_bytes >= n);
  g_data = b->data = vp_alloc(1);
  return 0;
}
/* The node loop of an append. */
static const struct GeoArrowGeometryNode *g_nodes, *g_it_node;
static int64_t g_nnodes;
static uint32_t g_it_rem, g_it_rings, g_seqs, g_seq_at;
static const struct GeoArrowGeometryNode* g_seq_node;
#define NODE_OK(p) (VP_SAME((p), g_nodes) && VP_OFF(p) <= (size_t)g_nnodes * sizeof(*g_nodes) && (VP_OFF(p) & 63) == 0)
#define BUF_OK(b) ((b)->size_bytes >= 0 && (b)->size_bytes <= (b)->capacity_bytes && (b)->capacity_bytes <= (int64_t)VP_MAX_OBJ)
#define INV_NODES(M, b, node, rem) \
  M(NODE_OK(node), "the cursor is on a node of the list") \
  M((b) == g_values && BUF_OK(b), "the buffer is valid")
#define HAVOC_NODES(b, node, rem) \
  { int64_t vp_k = vp_i64(); VP_ASSUME(vp_k >= 0 && vp_k <= g_nnodes); node = g_nodes + vp_k; } \
  vp_modifies(b, sizeof(*(b))); (b)->size_bytes = vp_i64(); (b)->capacity_bytes = vp_i64(); VP_ASSUME((b)->size_bytes >= 0 && (b)->size_bytes <= (b)->capacity_bytes); \
  (b)->data = vp_alloc(1)
#define BEFORE_NODES(b, node, rem) if ((node) != g_nodes + g_nnodes) VP_ASSUME((node)->dimensions >= 1 && (node)->dimensions <= 4); g_logn = 0; g_seqs = 0; g_it_rem = (rem); g_it_node = (node);
#define G_RING (g_it_rem > 0)
#define G_T (g_it_node->geometry_type)
#define G_HDR (G_RING ? 4 : G_T == 1 ? 5 : 9)
#define G_ND (g_it_node->dimensions == 4 ? 4 : g_it_node->dimensions == 1 ? 2 : 3)
#define G_EMPTY (!G_RING && G_T == 1 && g_it_node->size == 0)
static _Bool nans(uint32_t nd) {
  for (uint32_t k = 0; k < 4; k++)
    if (k < nd && ld64(g_log + 5 + 8 * k) != 0x7ff8000000000000ULL) return 0;
  return 1;
}
#define STEP_NODES(M, b, node, rem) \
  M((node) == g_it_node + 1, "one node after the other") \
  M(G_RING || (G_T >= 1 && G_T <= 7), "only known geometry types are written") \
  M(g_logn == G_HDR + (G_EMPTY ? 8 * G_ND : 0), "a node is its header, count and coordinates, a ring its count and coordinates") \
  M(G_RING || (g_log[0] == 1 && ld32(g_log + 1) == G_T + (g_it_node->dimensions - 1) * 1000u), "native byte order and the ISO type code") \
  M((!G_RING && G_T == 1) || ld32(g_log + (G_RING ? 0 : 5)) == g_it_node->size, "the count") \
  M(!G_EMPTY || nans(G_ND), "an empty point is NaN") \
  M(g_seqs == (G_RING || G_T == 2 || (G_T == 1 && !G_EMPTY)), "a sequence has coordinates, nothing else has") \
  M(!g_seqs || (g_seq_node == g_it_node && g_seq_at == G_HDR), "the node's own coordinates follow its header") \
  M((rem) == (G_RING ? g_it_rem - 1 : G_T == 3 ? g_it_node->size : 0), "the rings of a polygon follow it")
/* Contract of GeoArrowWKBWriterAppendSequence, proved by wkbw-sequence. */
static GeoArrowErrorCode vp_append_sequence(struct ArrowBuffer* b, const struct GeoArrowGeometryNode* node) {
  VP_ASSERT(b == g_values, "coordinates go to the values");
  if (vp_bool()) return ENOMEM;
  g_seqs++;
  g_seq_node = node;
  g_seq_at = g_logn;
  b->size_bytes = vp_i64();
  b->capacity_bytes = vp_i64();
  VP_ASSUME(BUF_OK(b));
  return 0;
}
/* Contract of GeoArrowGeometryNodeWriteSequence, proved by the units seq-*: the size needed;
 * the bytes are written if they fit. */
static int64_t g_need, g_written;
static int64_t vp_write_sequence(const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
  VP_ASSERT(node == g_seq_node, "the node's own coordinates");
  VP_ASSERT(g_written == 0, "the coordinates are written once");
  VP_ASSERT(dst_size >= 0 && g_values->capacity_bytes - g_values->size_bytes == dst_size && dst == g_values->data + g_values->size_bytes, "into reserved space behind the bytes already there");
  if (g_need <= dst_size) g_written++;
  return g_need;
}
#include "geoarrow/wkb_writer.c"

static struct WKBWriterPrivate P, O;
static struct GeoArrowVisitor V;
static struct GeoArrowError E;

/* Any state reachable by any calls: levels 0..31, buffers in any state. */
static void start(void) {
  vp_init();
  struct WKBWriterPrivate any;
  P = any;
  VP_ASSUME(P.level >= 0 && P.level <= 31);
  VP_ASSUME(P.length >= 0 && P.length < (int64_t)VP_MAX_OBJ && P.null_count >= 0 && P.null_count < (int64_t)VP_MAX_OBJ);
  vp_buffer(&P.offsets);
  vp_buffer(&P.values);
  g_values = &P.values;
  g_base = P.values.size_bytes;
  g_data = P.values.data;
  vp_register(&P, sizeof(P));
  g_w = vp_size();
  if (g_w < g_base) g_wval = P.values.data[g_w];
  O = P;
  V.private_data = &P;
  V.error = &E;
}
#define KEPT (g_w >= g_base || P.values.data[g_w] == g_wval)
static uint32_t wl(void) { uint32_t l = vp_u32(); VP_ASSUME(l < 32); return l; }

void harness_geom_start(void) {
  start();
  int gt = vp_int(), d = vp_int();
  VP_ASSUME(gt >= 0 && gt <= 7 && d >= 1 && d <= 4);
  uint32_t l = wl();
  int rc = geom_start_wkb(&V, gt, d);
  VP_ASSERT(P.level >= 0 && P.level <= 31, "the level stays in range");
  VP_ASSERT(rc == 0 ? O.level <= 30 : 1, "nesting deeper than supported is refused");
  if (rc == 0) {
    int L = O.level + 1;
    VP_ASSERT(P.level == L, "one level deeper");
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + (gt == 1 ? 5 : 9), "only the header is appended");
    VP_ASSERT(g_logn == (gt == 1 ? 5 : 9) && g_log[0] == 1, "native byte order");
    VP_ASSERT(ld32(g_log + 1) == (uint32_t)(gt + (d - 1) * 1000), "ISO type code");
    if (gt != 1) VP_ASSERT(ld32(g_log + 5) == 0 && P.size_pos[L] == (int64_t)g_base + 5, "the count field is the element's own");
    VP_ASSERT(P.geometry_type[L] == gt && P.dimensions[L] == d && P.size[L] == 0, "the new level");
    VP_ASSERT(P.size[O.level] == O.size[O.level] + 1, "the parent has one more member");
    if (l < (uint32_t)L) VP_ASSERT(P.size_pos[l] == O.size_pos[l] && P.geometry_type[l] == O.geometry_type[l] && P.dimensions[l] == O.dimensions[l], "open elements keep their place");
    if (l < (uint32_t)O.level) VP_ASSERT(P.size[l] == O.size[l], "open elements keep their counts");
    VP_REACH("geom_start");
  } else if (O.level > 30) {
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base && g_logn == 0, "a refused level writes nothing");
    VP_REACH("too deep");
  }
}
void harness_ring_start(void) {
  start();
  uint32_t l = wl();
  int rc = ring_start_wkb(&V);
  VP_ASSERT(P.level >= 0 && P.level <= 31, "the level stays in range");
  VP_ASSERT(rc == 0 ? O.level <= 30 : 1, "nesting deeper than supported is refused");
  if (rc == 0) {
    int L = O.level + 1;
    VP_ASSERT(P.level == L && P.size[L] == 0 && P.geometry_type[L] == 0, "the new level");
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + 4 && g_logn == 4 && ld32(g_log) == 0, "only the count is appended");
    VP_ASSERT(P.size_pos[L] == (int64_t)g_base, "the count field is the ring's own");
    VP_ASSERT(P.size[O.level] == O.size[O.level] + 1, "the polygon has one more ring");
    if (l < (uint32_t)L) VP_ASSERT(P.size_pos[l] == O.size_pos[l] && P.geometry_type[l] == O.geometry_type[l] && P.dimensions[l] == O.dimensions[l], "open elements keep their place");
    if (l < (uint32_t)O.level) VP_ASSERT(P.size[l] == O.size[l], "open elements keep their counts");
    VP_REACH("ring_start");
  }
}
#if VP_RING
#define VP_REACH_POINT
#else
#define VP_REACH_POINT VP_REACH("empty point");
#endif
static void ends(int ring) {
  start();
  uint32_t l = wl();
  size_t pos = (size_t)O.size_pos[O.level];
  int rc = ring ? ring_end_wkb(&V) : geom_end_wkb(&V);
  VP_ASSERT(P.level >= 0 && P.level <= 31, "the level stays in range");
  /* inside the supported depth and with its count field written, an element can be closed */
  _Bool own = O.values.data && O.level >= 1 && O.level <= 30 && O.size_pos[O.level] >= 0 && O.size_pos[O.level] <= O.values.size_bytes - 4;
  if (ring && own && O.geometry_type[O.level] == 0) VP_ASSERT(rc == 0, "a ring can be closed");
  if (!ring && own && O.geometry_type[O.level] != 1) VP_ASSERT(rc == 0, "a geometry can be closed");
  if (rc == 0) {
    VP_ASSERT(O.level >= 1 && P.level == O.level - 1, "one level up");
    VP_ASSERT(!ring || O.geometry_type[O.level] == 0, "only a ring is closed as a ring");
    VP_ASSERT(P.size[l] == O.size[l] && P.size_pos[l] == O.size_pos[l] && P.geometry_type[l] == O.geometry_type[l], "no count changes");
    if (ring || O.geometry_type[O.level] != 1) {
      VP_ASSERT(P.values.size_bytes == (int64_t)g_base, "nothing is appended");
      VP_ASSERT(ld32(P.values.data + pos) == O.size[O.level], "the count is stored in the element's own field");
      if (g_w < pos || g_w - pos >= 4) VP_ASSERT(KEPT, "other bytes stay");
      VP_REACH("closed");
    } else {
      int d = O.dimensions[O.level], nd = d == 4 ? 4 : d == 1 ? 2 : 3;
      if (O.size[O.level] == 0) {
        VP_ASSERT(d >= 1 && d <= 4, "known dimensions");
        VP_ASSERT(P.values.size_bytes == (int64_t)g_base + 8 * nd && g_logn == 8 * nd, "an empty point has one coordinate");
        for (int k = 0; k < 4; k++)
          if (k < nd) VP_ASSERT(ld64(g_log + 8 * k) == 0x7ff8000000000000ULL, "an empty point is NaN");
          VP_REACH_POINT
      } else {
        VP_ASSERT(P.values.size_bytes == (int64_t)g_base, "nothing is appended");
      }
    }
  }
}
#ifndef VP_RING
#define VP_RING 0
#endif
void harness_ends(void) { ends(VP_RING); }

static void coords(const int32_t nv, const int32_t stride) {
  struct GeoArrowCoordView view;
  start();
  g_n = view.n_coords = vp_i64();
  VP_ASSUME(g_n >= 0 && g_n <= 0xffffffffLL);
  g_nv = view.n_values = nv;
  if (nv == 3) pos3_facts(-1);
  view.coords_stride = stride;
  double* src = vp_alloc(NB(g_n, 4) + 64);
  for (int j = 0; j < 4; j++) view.values[j] = stride == 1 ? (double*)((uint8_t*)src + NB(g_n, 1) * j) : src + j;
  g_view = &view;
  int64_t need = (int64_t)NB(g_n, nv);
  /* where the data is after the one reservation this call makes */
  uint32_t l = wl();
  int rc = coords_wkb(&V, &view);
  if (rc == 0) {
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + need, "only the coordinates are appended");
    VP_ASSERT(P.size[P.level] == O.size[P.level] + (uint32_t)g_n && P.level == O.level, "the open element has that many more coordinates");
    if (l != (uint32_t)O.level) VP_ASSERT(P.size[l] == O.size[l], "open elements keep their counts");
    VP_REACH("coords");
  }
}
#ifdef VP_NV
void harness_coords(void) { coords(VP_NV, VP_STRIDE); }
#endif
/* Appends of one byte, a 32-bit count and a coordinate through the real nanoarrow code. */
#ifdef VP_PUT
void harness_put(void) {
  start();
  const int which = VP_PUT;
  uint32_t v = vp_u32(), k = vp_u32();
  uint8_t bytes[8];
  memcpy(bytes, &v, 4);
  uint32_t n = which == 0 ? 1 : which == 1 ? 4 : 8;
  VP_ASSUME(k < n);
  int rc = which == 0 ? ArrowBufferAppendUInt8(&P.values, (uint8_t)v) : which == 1 ? ArrowBufferAppendUInt32(&P.values, v) : ArrowBufferAppend(&P.values, bytes, 8);
  if (rc == 0) {
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + n && P.values.size_bytes <= P.values.capacity_bytes && P.values.data, "the size grows");
    VP_ASSERT(P.values.data[g_base + k] == bytes[k], "the bytes are appended");
    VP_ASSERT(KEPT, "bytes already written stay");
    VP_REACH("put");
  } else {
    VP_ASSERT(rc == ENOMEM && P.values.size_bytes == 0 && P.values.capacity_bytes == 0 && !P.values.data, "a failed append empties the buffer");
    VP_REACH("out of memory");
  }
}
#endif
void harness_reserve(void) {
  start();
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= (int64_t)VP_MAX_OBJ);
  int rc = ArrowBufferReserve(&P.values, n);
  if (rc == 0) {
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base && P.values.capacity_bytes - P.values.size_bytes >= n, "the space is there");
    VP_ASSERT(P.values.capacity_bytes == 0 || __CPROVER_OBJECT_SIZE(P.values.data) == (size_t)P.values.capacity_bytes, "the space is owned");
    VP_ASSERT(KEPT, "bytes already written stay");
    VP_REACH("reserve");
  } else {
    VP_ASSERT(rc == ENOMEM && P.values.size_bytes == 0 && P.values.capacity_bytes == 0 && !P.values.data, "a failed reservation empties the buffer");
  }
}
void harness_append_unsafe(void) {
  start();
  int64_t n = 8;
  VP_ASSUME(P.values.capacity_bytes - P.values.size_bytes >= n);
  uint8_t* src = vp_alloc(n);
  int64_t k = vp_i64();
  VP_ASSUME(k >= 0 && k < n);
  uint8_t want = src[k];
  ArrowBufferAppendUnsafe(&P.values, src, n);
  VP_ASSERT(P.values.size_bytes == (int64_t)g_base + n && P.values.data == g_data && P.values.capacity_bytes == O.values.capacity_bytes, "the size grows");
  VP_ASSERT(P.values.data[g_base + k] == want, "the bytes are appended");
  VP_ASSERT(KEPT, "bytes already written stay");
  VP_REACH("append");
}

/* The array's structure (C20): length, validity and null count. */
static int g_isnull;
/* The writer agrees with itself after n finished features. */
#define AGREE(n) (P.validity.buffer.data ? P.validity.size_bits == (n) && g_zeros == P.null_count : P.null_count == 0)
static void validity(void) {
  start();
  g_bw = vp_i64();
  g_zeros = P.null_count;
  g_bwval = vp_bool();
  P.validity.buffer.data = vp_bool() ? vp_alloc(1) : 0;
  if (!P.validity.buffer.data) P.validity.size_bits = g_zeros = 0;
  g_bcap = P.validity.size_bits;
}
void harness_feat(void) {
  validity();
  int64_t n = P.length; /* finished features */
  VP_ASSUME(AGREE(n) && P.null_count <= n);
  _Bool had = P.validity.buffer.data != 0;
  int old = g_bwval;
  int rc = feat_start_wkb(&V);
  VP_ASSERT(P.level == 0 && P.length == n + 1, "one more feature");
  VP_ASSERT(KEPT && P.values.size_bytes == (int64_t)g_base, "the element data is untouched");
  if (rc) return;
  VP_ASSERT(g_base <= 0x7fffffff, "element data past the offset limit is refused");
  VP_ASSERT(P.offsets.size_bytes == O.offsets.size_bytes + 4 && ld32(P.offsets.data + O.offsets.size_bytes) == g_base, "the element's offset is where its bytes start");
  int null = vp_bool();
  if (null && null_feat_wkb(&V)) return;
  rc = feat_end_wkb(&V);
  if (rc) return;
  VP_ASSERT(P.length == n + 1 && AGREE(n + 1) && P.null_count == O.null_count + null, "length, validity and null count agree");
  if (P.validity.buffer.data) {
    if (g_bw == n) VP_ASSERT(g_bwval == !null, "the feature's own bit");
    if (g_bw >= 0 && g_bw < n) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier features");
    VP_REACH("bitmap");
  } else VP_REACH("no bitmap");
}
static int64_t g_append_calls;
static int g_append_rc;
/* Contract of GeoArrowWKBWriterAppendBuffer as seen by its caller: fails, or appends bytes. */
GeoArrowErrorCode vp_append_buffer(struct ArrowBuffer* b, struct GeoArrowGeometryView geom) {
  VP_ASSERT(b == &P.values, "the element is written to the values");
  g_append_calls++;
  int64_t more = vp_i64();
  VP_ASSUME(more >= 0 && more <= 0xffffffffLL);
  uint8_t* p = vp_alloc(b->size_bytes + more);
  if (g_w < g_base && b->data) p[g_w] = b->data[g_w];
  b->data = p;
  b->size_bytes = b->capacity_bytes = b->size_bytes + more;
  return g_append_rc;
}
static void append(int null) {
  validity();
  int64_t n = P.length;
  VP_ASSUME(AGREE(n) && P.null_count <= n);
  _Bool had = P.validity.buffer.data != 0;
  int old = g_bwval;
  struct GeoArrowGeometryView geom;
  struct GeoArrowWKBWriter w = {&P};
  g_append_rc = vp_int();
  int rc = null ? GeoArrowWKBWriterAppendNull(&w) : GeoArrowWKBWriterAppend(&w, geom);
  VP_ASSERT(KEPT, "earlier bytes are untouched");
  if (rc == 0) {
    VP_ASSERT(g_base <= 0x7fffffff, "element data past the offset limit is refused");
    VP_ASSERT(P.offsets.size_bytes == O.offsets.size_bytes + 4 && ld32(P.offsets.data + O.offsets.size_bytes) == g_base, "the element's offset is where its bytes start");
    VP_ASSERT(null ? g_append_calls == 0 && P.values.size_bytes == (int64_t)g_base : g_append_calls == 1 && g_append_rc == 0, "the geometry is written once");
    VP_ASSERT(P.length == n + 1 && AGREE(n + 1) && P.null_count == O.null_count + null, "length, validity and null count agree");
    if (P.validity.buffer.data) {
      if (g_bw == n) VP_ASSERT(g_bwval == !null, "the feature's own bit");
      if (g_bw >= 0 && g_bw < n) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier features");
      VP_REACH("bitmap");
    }
  } else if (g_append_calls && g_append_rc) {
    VP_ASSERT(rc == g_append_rc && P.length == n && P.offsets.size_bytes == O.offsets.size_bytes && P.values.size_bytes == (int64_t)g_base, "a geometry that cannot be written leaves no partial element");
  }
}
void harness_append(void) { append(0); }
void harness_append_null(void) { append(1); }

/* nanoarrow's array assembly, by contract: buffers are moved out of the writer. */
static struct ArrowBuffer g_set[3];
static struct ArrowBitmap g_setv;
static int g_fin, g_fin_rc;
static struct ArrowArray* g_array;
ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* a, enum ArrowType t) {
  VP_ASSERT(a == g_array && t == O.storage_type, "an array of the writer's type");
  return vp_bool() ? ENOMEM : 0;
}
void ArrowArraySetValidityBitmap(struct ArrowArray* a, struct ArrowBitmap* b) {
  VP_ASSERT(a == g_array, "the array");
  g_setv = *b;
  b->buffer.data = 0; b->buffer.size_bytes = b->buffer.capacity_bytes = 0; b->size_bits = 0;
}
ArrowErrorCode ArrowArraySetBuffer(struct ArrowArray* a, int64_t i, struct ArrowBuffer* b) {
  VP_ASSERT(a == g_array && i >= 1 && i <= 2, "offsets and data");
  g_set[i] = *b;
  b->data = 0; b->size_bytes = b->capacity_bytes = 0;
  return vp_bool() ? ENOMEM : 0;
}
ArrowErrorCode ArrowArrayFinishBuildingDefault(struct ArrowArray* a, struct ArrowError* e) {
  g_fin++;
  return g_fin_rc;
}
void harness_finish(void) {
  validity();
  VP_ASSUME(AGREE(P.length));
  O = P;
  struct ArrowArray array;
  g_array = &array;
  struct GeoArrowWKBWriter w = {&P};
  g_fin_rc = vp_int();
  uint8_t* data = P.values.data;
  int rc = GeoArrowWKBWriterFinish(&w, &array, &E);
  if (rc == 0) {
    VP_ASSERT(g_fin == 1 && g_fin_rc == 0, "nanoarrow checks the finished array");
    VP_ASSERT(array.length == O.length && array.null_count == O.null_count, "length and null count");
    VP_ASSERT(g_setv.buffer.data == O.validity.buffer.data && g_setv.size_bits == O.validity.size_bits, "the validity bitmap");
    VP_ASSERT(g_set[2].data == data && g_set[2].size_bytes == O.values.size_bytes, "the element data");
    VP_ASSERT(O.values.size_bytes <= 0x7fffffff, "element data past the offset limit is refused");
    VP_ASSERT(g_set[1].size_bytes == O.offsets.size_bytes + 4 && ld32(g_set[1].data + O.offsets.size_bytes) == (uint32_t)O.values.size_bytes, "the last offset is the end of the data");
    VP_ASSERT(P.length == 0 && P.null_count == 0 && P.level == 0 && P.values.size_bytes == 0 && P.offsets.size_bytes == 0 && P.validity.buffer.data == 0 && P.validity.size_bits == 0, "the next array starts from an empty state");
    VP_REACH("finish");
  }
}

void harness_nodes(void) {
  start();
  struct GeoArrowGeometryView geom;
  g_nnodes = geom.size_nodes = vp_i64();
  VP_ASSUME(g_nnodes >= 0 && g_nnodes <= (int64_t)(VP_MAX_OBJ >> 6));
  struct GeoArrowGeometryNode* nodes = malloc(g_nnodes * sizeof(*nodes));
  VP_ASSUME(nodes != 0);
  VP_ASSERT(sizeof(*nodes) == 64, "size of a node");
  /* nodes have known dimensions (an unknown one has no number of ordinates) */
  geom.root = g_nodes = nodes;
  int rc = GeoArrowWKBWriterAppendBuffer(&P.values, geom);
  if (rc == 0) VP_REACH("all nodes written");
  else VP_REACH("refused");
}
void harness_sequence(void) {
  start();
  struct GeoArrowGeometryNode node;
  g_seq_node = &node;
  g_need = vp_i64();
  VP_ASSUME(g_need >= 0 && g_need <= (int64_t)VP_MAX_OBJ); /* 2^32 coordinates of 4 values are 2^37 bytes */
  int rc = GeoArrowWKBWriterAppendSequence(&P.values, &node);
  if (rc == 0) {
    VP_ASSERT(g_written == 1, "the coordinates were written");
    VP_ASSERT(P.values.size_bytes == (int64_t)g_base + g_need && P.values.size_bytes <= P.values.capacity_bytes, "exactly the coordinates are appended");
    VP_REACH("sequence");
  } else VP_ASSERT(rc == ENOMEM && g_written == 0, "only memory can be missing");
}
