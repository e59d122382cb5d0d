/* C13, C14, C15: geometries built from events, visited, copied. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

struct GeoArrowGeometryPrivate;
int GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
#define NODE sizeof(struct GeoArrowGeometryNode)
#define MAX_NODES (int64_t)(VP_MAX_OBJ >> 6)

/* witness byte of a buffer */
static size_t g_w;
static uint8_t g_wval;
static _Bool g_typed; /* the buffer has nodes, of which g_w is the witness */
static uint8_t* vp_realloc(struct ArrowBufferAllocator* a, uint8_t* ptr, int64_t old_size, int64_t new_size) {
  if (vp_bool() || new_size > (int64_t)VP_MAX_OBJ) return 0;
  if (g_typed) {
    struct GeoArrowGeometryNode* n = malloc((size_t)(new_size >> 6) * sizeof(*n));
    VP_ASSUME(n != 0);
    if (ptr && g_w < (size_t)(old_size >> 6) && g_w < (size_t)(new_size >> 6)) n[g_w] = ((struct GeoArrowGeometryNode*)ptr)[g_w];
    return (uint8_t*)n;
  }
  uint8_t* p = vp_alloc(new_size);
  if (ptr && g_w < (size_t)old_size && g_w < (size_t)new_size) p[g_w] = ptr[g_w];
  return p;
}
static uint8_t* g_freed;
static void vp_free(struct ArrowBufferAllocator* a, uint8_t* p, int64_t n) { g_freed = p; }
struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
  struct ArrowBufferAllocator a = {&vp_realloc, &vp_free, 0};
  return a;
}

/* --- stubs and loop contracts ------------------------------------------------------- */
static struct GeoArrowGeometry G;
static struct GeoArrowVisitor V;
static struct GeoArrowError E;

/* coordinate storage */
static uint8_t *g_old, *g_new;   /* the storage before and after it moves */
static size_t g_csize;
static struct GeoArrowGeometryNode* g_root;
static int64_t g_nn;             /* nodes */
static int64_t g_k;              /* witness node */
static int g_d;                  /* and ordinate */
static const uint8_t *g_was;     /* where its coordinates were */
static struct GeoArrowGeometryNode g_kold;
static _Bool empty_coord(const uint8_t* p);
/* A node's coordinates are the shared empty one or inside the storage. */
#define C_OK(p) (empty_coord(p) || (VP_SAME((p), g_old) && VP_OFF(p) <= g_csize))
#define N_OK(n) (C_OK((n)->coords[0]) && C_OK((n)->coords[1]) && C_OK((n)->coords[2]) && C_OK((n)->coords[3]))
static _Bool moved(const uint8_t* p, const uint8_t* was) {
  return empty_coord(was) ? p == was : (VP_SAME(p, g_new) && VP_OFF(p) == VP_OFF(was));
}
#define INV_MOVE(M, node, buf) \
  M(VP_SAME((node), g_root) && VP_OFF(node) <= (size_t)g_nn * NODE && (VP_OFF(node) & 63) == 0, "the cursor is on a node") \
  M((buf) == g_new, "the new storage stays") \
  M(g_k >= g_nn || (VP_OFF(node) > (size_t)g_k * NODE ? moved(g_root[g_k].coords[g_d], g_was) : g_root[g_k].coords[g_d] == g_was), "coordinates move with the storage, once") \
  M(g_k >= g_nn || (g_root[g_k].size == g_kold.size && g_root[g_k].level == g_kold.level && g_root[g_k].geometry_type == g_kold.geometry_type && g_root[g_k].coord_stride[g_d] == g_kold.coord_stride[g_d]), "nothing else of a node changes")
#define HAVOC_MOVE(node, buf) { int64_t vp_i; VP_ASSUME(vp_i >= 0 && vp_i <= g_nn); node = g_root + vp_i; i = vp_i; } \
  vp_modifies(g_root, ~(size_t)0 >> 1); if (g_nn) __CPROVER_havoc_object(g_root)
#define BEFORE_MOVE(node, buf) VP_ASSUME(VP_OFF(node) == (size_t)g_nn * NODE || N_OK(node)); 
#define STEP_MOVE(M, node, buf) M(VP_OFF(node) == (size_t)i * NODE, "node by node")

/* Contracts of the nanoarrow appends, as in wkb_write.c. */
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n) {
  VP_ASSERT(n >= 0, "space is reserved");
  if (n <= b->capacity_bytes - b->size_bytes) return 0;
  if (vp_bool() || n > (int64_t)VP_MAX_OBJ) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  b->capacity_bytes = vp_i64();
  VP_ASSUME(b->capacity_bytes >= b->size_bytes && b->capacity_bytes - b->size_bytes >= n && b->capacity_bytes <= (int64_t)VP_MAX_OBJ);
  b->data = vp_alloc(b->capacity_bytes);
  g_new = b->data;
  return 0;
}
static ArrowErrorCode vp_append(struct ArrowBuffer* b, const void* data, int64_t n) {
  VP_ASSERT(n >= 0 && n <= b->capacity_bytes - b->size_bytes, "appended to reserved space");
  VP_ASSERT(b->size_bytes == 0 && data == (const void*)g_old && n == (int64_t)g_csize, "the old coordinates are copied");
  if (g_w < g_csize) b->data[g_w] = g_old[g_w];
  b->size_bytes += n;
  return 0;
}

/* node appends by contract */
static struct GeoArrowGeometryNode *g_node, g_node_mem;
static int g_appends;
static GeoArrowErrorCode vp_append_node(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out);
/* Contract of GeoArrowGeometryAppendNodeInline when there is room, for its slow path. */
static GeoArrowErrorCode vp_append_room(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out);
/* memcpy, of which a witness byte is followed */
static size_t g_cw;
static void* vp_memcpy(void* dst, const void* src, size_t n) {
  VP_ASSERT(__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n), "copied between readable and writable memory");
  if (g_cw < n) ((uint8_t*)dst)[g_cw] = ((const uint8_t*)src)[g_cw];
  return dst;
}
static double* g_room;       /* where the next coordinate goes */
static int64_t g_reserved;
static int g_reserve_rc;
static GeoArrowErrorCode vp_reserve_coords(struct GeoArrowGeometry* geom, int64_t n, double** out) {
  VP_ASSERT(geom == &G && n >= 0, "room for coordinates");
  g_reserved = n;
  if (g_reserve_rc) return g_reserve_rc;
  *out = g_room;
  return 0;
}
static int g_ring_calls, g_ring_rc;
static int vp_geom_start(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  VP_ASSERT(v == &V && t == GEOARROW_GEOMETRY_TYPE_LINESTRING, "a ring is a linestring");
  VP_ASSERT(d == G.root[G.size_nodes - 1].dimensions, "with the dimensions of its polygon");
  g_ring_calls++;
  return g_ring_rc;
}

/* coordinates of an event */
static const struct GeoArrowCoordView* g_view;
static int64_t g_n, g_it;
static int32_t g_nv;
uint64_t __CPROVER_uninterpreted_pos3(int64_t i);
#define POS3(i) __CPROVER_uninterpreted_pos3((int64_t)(i))
static void pos3_facts(int64_t i) {
  VP_ASSUME(POS3(0) == 0 && POS3(g_n) == (uint64_t)(g_n * 3));
  if (i >= 0 && i < g_n) VP_ASSUME(POS3(i + 1) == POS3(i) + 3 && POS3(i) < POS3(g_n) && POS3(i + 1) <= POS3(g_n));
}
#define PV(i) (g_nv == 2 ? (uint64_t)(i) << 1 : g_nv == 3 ? POS3(i) : (uint64_t)(i) << 2)
#define INV_PUT(M, values, i) \
  M((i) >= 0 && (i) <= g_n, "coordinates are counted") \
  M(VP_SAME((values), g_room) && VP_OFF(values) == 8 * PV(i), "values go one behind the other")
#define HAVOC_PUT(values, i) { uint64_t vp_o; VP_ASSUME(vp_o <= VP_MAX_OBJ && vp_o == 8 * PV(i)); values = (double*)((uint8_t*)g_room + vp_o); } __CPROVER_havoc_object(g_room);
#define BEFORE_PUT(values, i) if (g_nv == 3) pos3_facts(i); g_it = (i); g_w2 = vp_size(); if (g_w2 < 8 * PV(i)) g_w2val = ((uint8_t*)g_room)[g_w2];
static size_t g_w2;
static uint8_t g_w2val;
static uint64_t ld64(const void* q) { uint64_t u; memcpy(&u, q, 8); return u; }
#define STEP_PUT(M, values, i) \
  M((i) == g_it + 1, "one coordinate after the other") \
  M(ld64((uint8_t*)g_room + 8 * PV(g_it)) == ld64(g_view->values[0] + g_it * g_view->coords_stride), "x") \
  M(ld64((uint8_t*)g_room + 8 * PV(g_it) + 8) == ld64(g_view->values[1] + g_it * g_view->coords_stride), "y") \
  M(g_nv < 3 || ld64((uint8_t*)g_room + 8 * PV(g_it) + 16) == ld64(g_view->values[2] + g_it * g_view->coords_stride), "third ordinate") \
  M(g_nv < 4 || ld64((uint8_t*)g_room + 8 * PV(g_it) + 24) == ld64(g_view->values[3] + g_it * g_view->coords_stride), "fourth ordinate") \
  M(g_w2 >= 8 * PV(g_it) || ((uint8_t*)g_room)[g_w2] == g_w2val, "earlier coordinates stay")

/* feat_end: sizes, from the last node to the first */
static uint32_t g_it_sizes[32];
static const uint8_t* g_it_end;
static struct GeoArrowGeometryNode g_it_n;
static int64_t g_it_i;
static uint32_t g_l;
#define IDX(node) ((int64_t)((VP_OFF(node) & 0xffffffffffffff) >> 6))
#define SEQ_TYPE(t) ((t) == 1 || (t) == 2)
#define SEQ_NODE_OK(n) (!SEQ_TYPE((n)->geometry_type) || (VP_SAME((n)->coords[0], g_old) && VP_OFF((n)->coords[0]) <= g_csize && ((n)->coord_stride[0] == 16 || (n)->coord_stride[0] == 24 || (n)->coord_stride[0] == 32)))
/* bytes / stride, by its definition */
static uint64_t times(uint64_t q, int32_t stride) { return stride == 16 ? q << 4 : stride == 24 ? (q << 4) + (q << 3) : q << 5; }
#define QUOTIENT(q, bytes, stride) (times((q), (stride)) <= (uint64_t)(bytes) && (uint64_t)(bytes) - times((q), (stride)) < (uint64_t)(stride))
#define INV_SIZE(M, node, sizes, end) \
  M(VP_SAME((node), g_root) && (node) >= g_root - 1 && (node) < g_root + g_nn, "the cursor is on a node") \
  M(VP_SAME((end), g_old) && VP_OFF(end) <= g_csize, "sequences end inside the storage")
#define HAVOC_SIZE(node, sizes, end) { int64_t vp_i; VP_ASSUME(vp_i >= -1 && vp_i < g_nn); node = g_root + vp_i; g_it_i = vp_i; } \
  { size_t vp_o; VP_ASSUME(vp_o <= g_csize); end = g_old + vp_o; } vp_modifies(g_root, ~(size_t)0 >> 1); __CPROVER_havoc_object(g_root)
#define BEFORE_SIZE(node, sizes, end) \
  if (g_it_i >= 0) { /* what geom_start and the append-only storage ensure: sequences start one behind the other */ \
    VP_ASSUME((node)->level <= 30 && SEQ_NODE_OK(node) && (!SEQ_TYPE((node)->geometry_type) || VP_OFF((node)->coords[0]) <= VP_OFF(end))); g_it_n = *(node); } \
  g_it_end = (end); memcpy(g_it_sizes, (sizes), sizeof(g_it_sizes)); g_l = vp_u32(); VP_ASSUME(g_l < 32); g_k = vp_i64(); VP_ASSUME(g_k >= 0 && g_k < g_nn); g_kold = g_root[g_k];
#define IT_NOW (g_root[g_it_i < 0 ? 0 : g_it_i])
#define IT_L (g_it_n.level)
#define IT_COMP (g_it_n.geometry_type >= 3 && g_it_n.geometry_type <= 7)
#define STEP_SIZE(M, node, sizes, end) \
  M((node) == g_root + g_it_i - 1, "node by node") \
  M(g_l == IT_L || (IT_COMP && g_l == IT_L + 1u) || (sizes)[g_l] == g_it_sizes[g_l], "counts of other levels stay") \
  M((sizes)[IT_L] == g_it_sizes[IT_L] + 1, "a node counts for its parent") \
  M(!IT_COMP || ((sizes)[IT_L + 1] == 0 && IT_NOW.size == g_it_sizes[IT_L + 1]), "a geometry has the members one level deeper that follow it") \
  M(SEQ_TYPE(g_it_n.geometry_type) ? (end) == g_it_n.coords[0] && QUOTIENT(IT_NOW.size, (int64_t)(VP_OFF(g_it_end) - VP_OFF(g_it_n.coords[0])), g_it_n.coord_stride[0]) : (end) == g_it_end, "a sequence ends where the next one starts") \
  M(SEQ_TYPE(g_it_n.geometry_type) || IT_COMP || IT_NOW.size == g_it_n.size, "other nodes keep their size") \
  M(IT_NOW.level == g_it_n.level && IT_NOW.geometry_type == g_it_n.geometry_type && IT_NOW.dimensions == g_it_n.dimensions && IT_NOW.coords[0] == g_it_n.coords[0], "only sizes change") \
  M(g_k == g_it_i || (g_root[g_k].size == g_kold.size && g_root[g_k].coords[0] == g_kold.coords[0] && g_root[g_k].level == g_kold.level), "other nodes stay")

/* C14: a sequence in chunks */
uint64_t __CPROVER_uninterpreted_addr(uint32_t j, int64_t k);
#define ADDR __CPROVER_uninterpreted_addr
static const struct GeoArrowGeometryNode* g_seq;
static int64_t g_reported, g_chunk;
static uint32_t g_filled;
static const void* g_cache;
static int g_pending;
static int32_t g_stride[4];
static uint8_t* g_src;
#define CUR_OK(c, k) (VP_SAME((c).coords[0], g_src) && VP_OFF((c).coords[0]) == ADDR(0, (k)) && VP_SAME((c).coords[1], g_src) && VP_OFF((c).coords[1]) == ADDR(1, (k)) && \
  (g_nv < 3 || (VP_SAME((c).coords[2], g_src) && VP_OFF((c).coords[2]) == ADDR(2, (k)))) && (g_nv < 4 || (VP_SAME((c).coords[3], g_src) && VP_OFF((c).coords[3]) == ADDR(3, (k)))) && \
  (c).coord_stride[0] == g_stride[0] && (c).coord_stride[1] == g_stride[1] && (c).coord_stride[2] == g_stride[2] && (c).coord_stride[3] == g_stride[3] && \
  (c).dimensions == g_seq->dimensions && (c).flags == g_seq->flags)
#define VIEW_OK(v) ((v).n_values == g_nv && (v).coords_stride == g_nv && (v).values[0] == (const double*)coords && (v).values[1] == (const double*)coords + 1 && \
  (g_nv < 3 || (v).values[2] == (const double*)coords + 2) && (g_nv < 4 || (v).values[3] == (const double*)coords + 3))
#define INV_CHUNK(M, left, cur, view) \
  M((left) >= 0 && (left) <= (int64_t)g_seq->size && g_reported == (int64_t)g_seq->size - (left), "every coordinate is reported or left") \
  M((left) > 0 || g_seq->size == 0, "a chunk is left") \
  M(CUR_OK(cur, g_reported), "the cursor is behind the coordinates reported") \
  M((cur).size == (uint32_t)g_chunk, "full chunks") \
  M(!g_pending, "a chunk that was read was reported") M(VIEW_OK(view), "the view is of the cache")
#define HAVOC_CHUNK(left, cur, view) VP_HAVOC(g_reported); { int64_t vp_l = vp_i64(); VP_ASSUME(vp_l >= 0 && vp_l <= (int64_t)g_seq->size); g_reported = vp_l; } \
  for (int vp_j = 0; vp_j < 4; vp_j++) { if (vp_j < g_nv) { (cur).coords[vp_j] = g_src + ADDR(vp_j, g_reported); (view).values[vp_j] = coords + vp_j; } (cur).coord_stride[vp_j] = g_stride[vp_j]; }
#define BEFORE_CHUNK(left, cur, view) \
  for (uint32_t vp_j = 0; vp_j < 4; vp_j++) VP_ASSUME(ADDR(vp_j, g_reported + g_chunk) == ADDR(vp_j, g_reported) + (uint64_t)((int64_t)g_chunk * g_stride[vp_j]) && ADDR(vp_j, g_reported) <= VP_MAX_OBJ && ADDR(vp_j, g_reported + g_chunk) <= VP_MAX_OBJ);
#define STEP_CHUNK(M, left, cur, view)
static int64_t vp_write_chunk(const struct GeoArrowGeometryNode* c, uint8_t* dst, int64_t n) {
  VP_ASSERT(CUR_OK(*c, g_reported), "the chunk starts behind the coordinates reported");
  VP_ASSERT(n == 384 * 8 && c->size <= (uint32_t)g_chunk && (uint64_t)g_reported + c->size <= g_seq->size, "the chunk fits the cache and the sequence");
  VP_ASSERT(!g_pending, "chunks are reported one by one");
  g_pending = 1;
  g_filled = c->size;
  g_cache = dst;
  return (int64_t)c->size * g_nv * 8;
}

/* C14: events of a visit */
static int g_events[8]; /* how often: 0 feat 1 geom 2 ring 3 sequence 4 ring end 5 geom end 6 feat end 7 child */
static int g_failed, g_fcode;
static int64_t g_left, g_avail, g_used;
static const struct GeoArrowGeometryNode *g_n0, *g_last_seq;
static int64_t g_it_used; static uint32_t g_it_ev[8];
static uint32_t g_ev[8];
static int ev(int k) {
  VP_ASSERT(!g_failed, "nothing happens after a failed event");
  g_ev[k]++;
  int rc = vp_int();
  if (rc) { g_failed = 1; g_fcode = rc; }
  return rc;
}
static int e_feat(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); return ev(0); }
static int e_geom(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  VP_ASSERT(v == &V && t == g_n0->geometry_type && d == g_n0->dimensions, "the node's type and dimensions");
  return ev(1);
}
static int e_ring(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); return ev(2); }
static int e_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  VP_ASSERT(v == &V && g_pending && c->n_coords == g_filled, "the chunk just read is reported");
  const double* coords = (const double*)g_cache;
  VP_ASSERT(VIEW_OK(*c), "as interleaved coordinates in the cache");
  g_pending = 0;
  g_reported += g_filled;
  return ev(3);
}
static int e_ring_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); return ev(4); }
static int e_geom_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); return ev(5); }
static int e_feat_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); return ev(6); }
static void events(void) {
  V.feat_start = &e_feat; V.geom_start = &e_geom; V.ring_start = &e_ring; V.coords = &e_coords;
  V.ring_end = &e_ring_end; V.geom_end = &e_geom_end; V.feat_end = &e_feat_end; V.error = &E;
}
#define INSIDE(p) (VP_SAME((p), g_n0) && VP_OFF(p) >= VP_OFF(g_n0) && (VP_OFF(p) & 63) == 0 && (int64_t)((VP_OFF(p) - VP_OFF(g_n0)) >> 6) < g_avail)
/* Contract of the sequence visitor, proved by visit-seq-*. */
static GeoArrowErrorCode vp_visit_seq(const struct GeoArrowGeometryNode* n, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && INSIDE(n), "a sequence is a node of the list");
  g_last_seq = n;
  return ev(3);
}
/* Contract of the node visitor, used for members: uses at least one node and not more than there are. */
static GeoArrowErrorCode vp_visit_node(const struct GeoArrowGeometryNode* n, int64_t* left, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && !g_failed, "nothing happens after a failed event");
  VP_ASSERT(*left >= 0 && *left <= g_avail, "nodes are left or not");
  VP_ASSERT(VP_SAME(n, g_n0) && (int64_t)((VP_OFF(n) - VP_OFF(g_n0)) >> 6) == g_avail - *left && (VP_OFF(n) & 63) == 0, "a member starts where the previous one ends");
  g_ev[7]++;
  int rc = vp_int();
  if (*left <= 0) { (*left)--; VP_ASSUME(rc != 0); g_failed = 1; g_fcode = rc; return rc; }
  int64_t c = vp_i64();
  VP_ASSUME(rc ? c >= 0 && c <= *left + 1 : c >= 1 && c <= *left);
  *left -= c;
  if (rc) { g_failed = 1; g_fcode = rc; }
  return rc;
}
#define INV_RING(M, i, left) \
  M((i) <= g_n0->size && g_ev[2] == (i) && g_ev[3] == (i) && g_ev[4] == (i), "every ring is started, reported and ended") \
  M(*(left) == g_avail - 1 && g_ev[1] == 1 && g_ev[5] == 0 && !g_failed, "inside the polygon")
#define HAVOC_RING(i, left) VP_HAVOC(g_ev); 
#define BEFORE_RING(i, left)
#define STEP_RING(M, i, left) M(g_last_seq == g_n0 + (i), "a ring is its own node")
#define INV_KID(M, i, left, child) \
  M((i) <= g_n0->size && g_ev[7] == (i), "every member is visited once") \
  M(*(left) >= 0 && *(left) <= g_avail - 1, "nodes are used up") \
  M((child) == g_n0 + (g_avail - *(left)), "the next member follows") \
  M(g_ev[1] == 1 && g_ev[5] == 0 && !g_failed, "inside the geometry")
#define HAVOC_KID(i, left, child) VP_HAVOC(g_ev); vp_modifies((left), 8); { int64_t vp_l = vp_i64(); VP_ASSUME(vp_l >= 0 && vp_l <= g_avail - 1); *(left) = vp_l; child = g_n0 + (g_avail - vp_l); }
#define BEFORE_KID(i, left, child)
#define STEP_KID(M, i, left, child)

/* C15: a deep copy */
uint64_t __CPROVER_uninterpreted_need(int64_t i);   /* bytes of node i's coordinates */
uint64_t __CPROVER_uninterpreted_sum(int64_t i);    /* of the sequences before node i */
#define NEED __CPROVER_uninterpreted_need
#define SUM __CPROVER_uninterpreted_sum
static struct GeoArrowGeometryNode *g_srcn, *g_dstn;
static int g_phase;
static void sum_facts(int64_t i) {
  VP_ASSUME(SUM(0) == 0 && SUM(g_nn) <= VP_MAX_OBJ);
  if (i >= 0 && i < g_nn) {
    VP_ASSUME(SUM(i + 1) == SUM(i) + (SEQ_TYPE(g_srcn[i].geometry_type) ? NEED(i) : 0) && SUM(i) <= SUM(i + 1) && SUM(i + 1) <= SUM(g_nn));
    VP_ASSUME(NEED(i) <= VP_MAX_OBJ && g_srcn[i].dimensions >= 1 && g_srcn[i].dimensions <= 4);
  }
}
static int64_t g_wrote;
static uint8_t* g_wrote_at;
static int64_t vp_write_seq(const struct GeoArrowGeometryNode* n, uint8_t* dst, int64_t size) {
  const struct GeoArrowGeometryNode* base = g_phase == 0 ? g_srcn : g_dstn;
  VP_ASSERT(VP_SAME(n, base) && VP_OFF(n) < (size_t)g_nn * NODE && (VP_OFF(n) & 63) == 0, "a node of the list");
  int64_t i = IDX(n);
  if (g_phase == 0) {
    VP_ASSERT(size == 0, "only the size is asked for");
  } else {
    VP_ASSERT(size >= 0 && NEED(i) <= (uint64_t)size && VP_SAME(dst, g_new) && VP_OFF(dst) + (size_t)size <= SUM(g_nn), "the coordinates fit the storage");
    VP_ASSERT(n->coords[0] == g_it_n.coords[0] && n->coord_stride[0] == g_it_n.coord_stride[0] && n->flags == g_it_n.flags, "read from the source");
    g_wrote = i;
    g_wrote_at = dst;
  }
  return (int64_t)NEED(i);
}
static ArrowErrorCode vp_resize(struct ArrowBuffer* b, int64_t n, char shrink) {
  VP_ASSERT(n == (int64_t)SUM(g_nn), "room for all coordinates");
  if (vp_bool()) return ENOMEM;
  b->data = g_new = vp_alloc(n);
  b->size_bytes = n;
  return 0;
}
static GeoArrowErrorCode vp_shallow(struct GeoArrowGeometryView src, struct GeoArrowGeometry* dst) {
  VP_ASSERT(src.root == g_srcn && src.size_nodes == g_nn && dst == &G, "the nodes are copied");
  if (vp_bool()) return ENOMEM;
  dst->root = g_dstn;
  dst->size_nodes = g_nn;
  g_phase = 1;
  return 0;
}
#define CPY_CUR(node, base) M_(VP_SAME((node), base) && VP_OFF(node) <= (size_t)g_nn * NODE && (VP_OFF(node) & 63) == 0)
#define INV_TOTAL(M, node, total) \
  M(VP_SAME((node), g_srcn) && VP_OFF(node) <= (size_t)g_nn * NODE && (VP_OFF(node) & 63) == 0, "the cursor is on a node") \
  M((total) == (int64_t)SUM(IDX(node)), "the bytes of all sequences so far") 
#define HAVOC_TOTAL(node, total) { int64_t vp_i = vp_i64(); VP_ASSUME(vp_i >= 0 && vp_i <= g_nn); node = g_srcn + vp_i; sum_facts(vp_i); }
#define BEFORE_TOTAL(node, total)
#define STEP_TOTAL(M, node, total)
#define INV_CPY(M, node, buf, left) \
  M(VP_SAME((node), g_dstn) && VP_OFF(node) <= (size_t)g_nn * NODE && (VP_OFF(node) & 63) == 0, "the cursor is on a node") \
  M(VP_SAME((buf), g_new) && VP_OFF(buf) == SUM(IDX(node)) && (left) == (int64_t)(SUM(g_nn) - SUM(IDX(node))), "coordinates go one sequence behind the other")
#define HAVOC_CPY(node, buf, left) { int64_t vp_i = vp_i64(); VP_ASSUME(vp_i >= 0 && vp_i <= g_nn); node = g_dstn + vp_i; sum_facts(vp_i); buf = g_new + SUM(vp_i); g_it_i = vp_i; } \
  vp_modifies(g_dstn, ~(size_t)0 >> 1); if (g_nn) __CPROVER_havoc_object(g_dstn)
#define BEFORE_CPY(node, buf, left) \
  if (g_it_i < g_nn) { VP_ASSUME((node)->geometry_type == g_srcn[g_it_i].geometry_type && (node)->dimensions == g_srcn[g_it_i].dimensions); g_it_n = *(node); } \
  g_wrote = -1; g_k = vp_i64(); VP_ASSUME(g_k >= 0 && g_k <= g_nn); if (g_k < g_nn) g_kold = g_dstn[g_k];
#define IT_D (g_dstn[g_it_i < g_nn ? g_it_i : 0])
#define IT_ND (g_it_n.dimensions == 4 ? 4 : g_it_n.dimensions == 1 ? 2 : 3)
#define STEP_CPY(M, node, buf, left) \
  M((node) == g_dstn + g_it_i + 1, "node by node") \
  M((g_wrote == g_it_i) == SEQ_TYPE(g_it_n.geometry_type), "sequences are copied") \
  M(!SEQ_TYPE(g_it_n.geometry_type) || (g_wrote_at == g_new + SUM(g_it_i) && IT_D.coords[0] == g_wrote_at && IT_D.coords[1] == g_wrote_at + 8 && \
     (IT_ND < 3 || IT_D.coords[2] == g_wrote_at + 16) && (IT_ND < 4 || IT_D.coords[3] == g_wrote_at + 24)), "the copy's node points at its own coordinates") \
  M(!SEQ_TYPE(g_it_n.geometry_type) || (IT_D.coord_stride[0] == 8 * IT_ND && IT_D.coord_stride[1] == 8 * IT_ND && (IT_ND < 3 || IT_D.coord_stride[2] == 8 * IT_ND) && (IT_ND < 4 || IT_D.coord_stride[3] == 8 * IT_ND)), "which are interleaved") \
  M(IT_D.flags == (SEQ_TYPE(g_it_n.geometry_type) ? g_it_n.flags & ~1 : g_it_n.flags), "in native byte order") \
  M(IT_D.size == g_it_n.size && IT_D.level == g_it_n.level && IT_D.geometry_type == g_it_n.geometry_type && IT_D.dimensions == g_it_n.dimensions && IT_D.user_data == g_it_n.user_data, "the rest of the node stays") \
  M(g_k == g_it_i || g_k >= g_nn || (g_dstn[g_k].coords[0] == g_kold.coords[0] && g_dstn[g_k].flags == g_kold.flags && g_dstn[g_k].size == g_kold.size), "other nodes stay")

#include "geoarrow/geometry.c"

static _Bool empty_coord(const uint8_t* p) { return p == _GeoArrowkEmptyPointCoords; }
static struct GeoArrowGeometryPrivate P;
/* Contract of GeoArrowGeometryAppendNodeInline, proved by geom-append. */
static GeoArrowErrorCode vp_append_node(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out) {
  VP_ASSERT(geom == &G, "the geometry");
  if (vp_bool()) { geom->root = 0; geom->size_nodes = geom->capacity_nodes = 0; return ENOMEM; }
  memset(&g_node_mem, 0, sizeof(g_node_mem));
  for (int i = 0; i < 4; i++) g_node_mem.coords[i] = _GeoArrowkEmptyPointCoords;
  g_appends++;
  geom->size_nodes++;
  *out = &g_node_mem;
  return 0;
}

static GeoArrowErrorCode vp_append_room(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out) {
  VP_ASSERT(geom == &G && geom->size_nodes < geom->capacity_nodes, "there is room for a node");
  *out = geom->root + geom->size_nodes++;
  g_appends++;
  return 0;
}
/* Contract of GeoArrowGeometryAppendNode, for the fast path. */
static GeoArrowErrorCode vp_append_slow(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out) {
  VP_ASSERT(geom == &G && geom->size_nodes == geom->capacity_nodes, "only a full list is grown");
  g_appends++;
  return ENOMEM;
}
static void* vp_memset(void* dst, int c, size_t n) {
  struct GeoArrowGeometryNode z, *d = dst;
  VP_ASSERT(c == 0 && n == sizeof(z) && VP_SAME(dst, G.root) && (VP_OFF(dst) & 63) == 0, "a whole node is zeroed");
  z.size = z.flags = z.geometry_type = z.dimensions = z.level = 0;
  z.user_data = 0;
  for (int i = 0; i < 4; i++) { z.coords[i] = 0; z.coord_stride[i] = 0; }
  *d = z;
  return dst;
}

#define SYNC ((uint8_t*)G.root == P.nodes.data && P.nodes.capacity_bytes == G.capacity_nodes * 64 && G.size_nodes >= 0 && G.size_nodes <= G.capacity_nodes && \
  (P.nodes.data ? __CPROVER_OBJECT_SIZE(P.nodes.data) == (size_t)P.nodes.capacity_bytes : P.nodes.capacity_bytes == 0))
static void start(void) {
  vp_init();
  struct GeoArrowGeometryPrivate any;
  P = any;
  G.private_data = &P;
  V.private_data = &G;
  V.error = &E;
  P.nodes.allocator.reallocate = P.coords.allocator.reallocate = &vp_realloc;
  P.nodes.allocator.free = P.coords.allocator.free = &vp_free;
  g_w = vp_size();
}
static void nodes(void) {
  G.capacity_nodes = vp_i64();
  G.size_nodes = vp_i64();
  VP_ASSUME(G.capacity_nodes >= 0 && G.capacity_nodes <= MAX_NODES && G.size_nodes >= 0 && G.size_nodes <= G.capacity_nodes);
  P.nodes.capacity_bytes = G.capacity_nodes * 64;
  if (g_typed) {
    G.root = malloc((size_t)G.capacity_nodes * sizeof(*G.root));
    VP_ASSUME(G.root != 0);
    if (G.capacity_nodes == 0) G.root = 0;
    P.nodes.data = (uint8_t*)G.root;
  } else {
    P.nodes.data = G.capacity_nodes ? vp_alloc(P.nodes.capacity_bytes) : 0;
    G.root = (struct GeoArrowGeometryNode*)P.nodes.data;
  }
}
static _Bool same_node(const struct GeoArrowGeometryNode* a, const struct GeoArrowGeometryNode* b) {
  for (int i = 0; i < 4; i++) if (a->coords[i] != b->coords[i] || a->coord_stride[i] != b->coord_stride[i]) return 0;
  return a->size == b->size && a->flags == b->flags && a->level == b->level && a->geometry_type == b->geometry_type && a->dimensions == b->dimensions && a->user_data == b->user_data;
}
void harness_append(void) {
  start();
  g_typed = 1;
  nodes();
  VP_ASSERT(NODE == 64, "size of a node");
  int64_t n = G.size_nodes;
  struct GeoArrowGeometryNode old;
  if (g_w < (size_t)n) old = G.root[g_w];
  struct GeoArrowGeometryNode* out = 0;
  int rc = GeoArrowGeometryAppendNodeInline(&G, &out);
  VP_ASSERT(SYNC, "the cached node list is the buffer");
  if (g_appends) {
    VP_ASSERT(n == G.capacity_nodes && G.size_nodes == n, "grown first");
    VP_REACH("full list");
  } else if (rc == 0) {
    VP_ASSERT(G.size_nodes == n + 1 && out == G.root + n, "one more node, the last");
    VP_ASSERT(out->size == 0 && out->flags == 0 && out->geometry_type == 0 && out->dimensions == 0 && out->level == 0 && out->user_data == 0, "a zeroed node");
    for (int i = 0; i < 4; i++) VP_ASSERT(out->coords[i] == _GeoArrowkEmptyPointCoords && out->coord_stride[i] == 0, "without coordinates");
    VP_ASSERT(g_w >= (size_t)n || same_node(&old, G.root + g_w), "earlier nodes stay");
    VP_REACH("append");
  } else VP_ASSERT(0, "an append does not fail without growing");
}
void harness_append_slow(void) {
  start();
  g_typed = 1;
  nodes();
  int64_t n = G.size_nodes;
  struct GeoArrowGeometryNode old;
  if (g_w < (size_t)n) old = G.root[g_w];
  struct GeoArrowGeometryNode* out = 0;
  int rc = GeoArrowGeometryAppendNode(&G, &out);
  VP_ASSERT(SYNC, "the cached node list is the buffer");
  if (rc == 0) {
    VP_ASSERT(g_appends == 1 && G.size_nodes == n + 1 && out == G.root + n, "appended to the grown list");
    VP_ASSERT(g_w >= (size_t)n || same_node(&old, G.root + g_w), "earlier nodes stay");
    VP_REACH("append");
  } else {
    VP_ASSERT(rc == ENOMEM && G.size_nodes == 0, "a failed append leaves no nodes");
    VP_REACH("out of memory");
  }
}
void harness_resize(void) {
  start();
  nodes();
  int64_t n = vp_i64(), old = G.size_nodes;
  VP_ASSUME(n >= 0 && n <= MAX_NODES);
  if (g_w < (size_t)G.capacity_nodes * 64) g_wval = P.nodes.data[g_w];
  size_t keep = (size_t)G.capacity_nodes * 64;
  int rc = GeoArrowGeometryResizeNodes(&G, n);
  VP_ASSERT(SYNC, "the cached node list is the buffer");
  VP_ASSERT(G.size_nodes == (rc ? 0 : n), "the new size");
  if (rc == 0) VP_ASSERT(g_w >= keep || g_w >= (size_t)n * 64 || P.nodes.data[g_w] == g_wval, "nodes stay");
  VP_REACH("resize");
}
void harness_shallow(void) {
  start();
  nodes();
  struct GeoArrowGeometryView src;
  src.size_nodes = vp_i64();
  VP_ASSUME(src.size_nodes >= 0 && src.size_nodes <= MAX_NODES);
  uint8_t* s = vp_alloc(src.size_nodes * 64);
  src.root = (const struct GeoArrowGeometryNode*)s;
  size_t w = g_cw = vp_size();
  VP_ASSUME(w < (size_t)src.size_nodes * 64 || src.size_nodes == 0);
  int rc = GeoArrowGeometryShallowCopy(src, &G);
  VP_ASSERT(SYNC, "the cached node list is the buffer");
  if (rc == 0) {
    VP_ASSERT(G.size_nodes == src.size_nodes, "as many nodes");
    VP_ASSERT(src.size_nodes == 0 || ((uint8_t*)G.root)[w] == s[w], "the same nodes");
    VP_REACH("shallow copy");
  }
}
/* coordinate storage that has to move */
void harness_reserve_coords(void) {
  start();
  g_nn = G.size_nodes = vp_i64();
  VP_ASSUME(g_nn >= 0 && g_nn <= MAX_NODES);
  G.root = g_root = malloc(g_nn * sizeof(*g_root));
  VP_ASSUME(g_root != 0);
  g_csize = vp_size();
  P.coords.size_bytes = (int64_t)g_csize;
  P.coords.capacity_bytes = vp_i64();
  VP_ASSUME(g_csize <= VP_MAX_OBJ >> 2 && P.coords.capacity_bytes >= (int64_t)g_csize && P.coords.capacity_bytes <= (int64_t)(VP_MAX_OBJ >> 2));
  g_old = P.coords.data = vp_alloc(P.coords.capacity_bytes);
  g_k = vp_i64();
  g_d = vp_int();
  VP_ASSUME(g_k >= 0 && g_k <= g_nn && g_d >= 0 && g_d < 4);
  if (g_k < g_nn) { VP_ASSUME(N_OK(g_root + g_k)); g_kold = g_root[g_k]; g_was = g_kold.coords[g_d]; }
  if (g_w < g_csize) g_wval = g_old[g_w];
  int64_t more = vp_i64();
  VP_ASSUME(more >= 0 && more <= (int64_t)(VP_MAX_OBJ >> 5));
  double* out = 0;
  g_new = 0;
  int rc = GeoArrowGeometryReserveCoords(&G, more, &out);
  VP_ASSERT(P.coords.size_bytes == (int64_t)g_csize, "no coordinate is lost or added");
  VP_ASSERT(g_w >= g_csize || P.coords.data[g_w] == g_wval, "coordinates keep their values");
  if (rc == 0) {
    VP_ASSERT((uint8_t*)out == P.coords.data + g_csize && P.coords.capacity_bytes - (int64_t)g_csize >= more * 8, "there is room behind the coordinates");
    if (P.coords.data != g_old) {
      VP_ASSERT(P.coords.data == g_new && g_freed == g_old, "the old storage is released");
      VP_ASSERT(g_k >= g_nn || moved(g_root[g_k].coords[g_d], g_was), "coordinates move with the storage");
      VP_REACH("moved");
    } else {
      VP_ASSERT(g_k >= g_nn || g_root[g_k].coords[g_d] == g_was, "nodes stay");
      VP_REACH("stayed");
    }
  } else {
    VP_ASSERT(P.coords.data == g_old && (g_k >= g_nn || g_root[g_k].coords[g_d] == g_was), "a failure changes nothing");
    VP_REACH("out of memory");
  }
}
void harness_geom_start(void) {
  start();
  VP_ASSUME(P.current_level >= 0 && P.current_level <= 31);
  G.size_nodes = vp_i64();
  VP_ASSUME(G.size_nodes >= 0 && G.size_nodes <= MAX_NODES);
  int64_t n = G.size_nodes;
  int level = P.current_level;
  g_room = vp_alloc(64);
  g_reserve_rc = vp_int();
  int t = vp_int(), d = vp_int();
  VP_ASSUME(t >= 0 && t <= 7 && d >= 0 && d <= 4);
  int rc = geom_start_geometry(&V, t, d);
  VP_ASSERT(P.current_level >= 0 && P.current_level <= 31, "the level stays in range");
  if (rc == 0) {
    VP_ASSERT(level < 31, "nesting that is too deep is refused");
    VP_ASSERT(P.current_level == level + 1 && g_appends == 1 && G.size_nodes == n + 1, "one node, one level");
    VP_ASSERT(g_node_mem.geometry_type == t && g_node_mem.dimensions == d && g_node_mem.level == level && g_node_mem.size == 0 && g_node_mem.flags == 0, "the node's type, dimensions and level");
    if (SEQ_TYPE(t)) {
      int nd = d == 4 ? 4 : d == 1 ? 2 : 3;
      VP_ASSERT(d >= 1, "a sequence has known dimensions");
      VP_ASSERT(g_reserved == nd, "room for a coordinate");
      for (int j = 0; j < 4; j++)
        if (j < nd) VP_ASSERT(g_node_mem.coords[j] == (uint8_t*)(g_room + j) && g_node_mem.coord_stride[j] == 8 * nd, "its coordinates start where the next ones go");
      VP_REACH("sequence");
    } else {
      for (int j = 0; j < 4; j++) VP_ASSERT(g_node_mem.coords[j] == _GeoArrowkEmptyPointCoords, "no coordinates");
      VP_REACH("geometry");
    }
  } else {
    VP_ASSERT(P.current_level == level, "a refused event opens nothing");
    VP_ASSERT(G.size_nodes == n || G.size_nodes == 0, "a refused event leaves no node");
    if (level == 31) VP_REACH("too deep");
  }
}
void harness_ring_start(void) {
  start();
  G.size_nodes = vp_i64();
  VP_ASSUME(G.size_nodes >= 0 && G.size_nodes <= MAX_NODES);
  G.root = malloc(G.size_nodes * sizeof(*G.root));
  VP_ASSUME(G.root != 0);
  g_ring_rc = vp_int();
  int rc = ring_start_geometry(&V);
  VP_ASSERT(G.size_nodes == 0 ? rc != 0 && g_ring_calls == 0 : g_ring_calls == 1 && rc == g_ring_rc, "a ring needs a geometry");
  VP_REACH("ring");
}
#ifdef VP_NV
void harness_coords(void) {
  start();
  struct GeoArrowCoordView view;
  G.size_nodes = vp_i64();
  VP_ASSUME(G.size_nodes >= 0 && G.size_nodes <= MAX_NODES);
  g_n = view.n_coords = vp_i64();
  VP_ASSUME(g_n >= 0 && g_n <= 0xffffffffLL);
  g_nv = view.n_values = VP_NV;
  view.coords_stride = VP_STRIDE;
  pos3_facts(-1);
  double* src = vp_alloc((size_t)g_n * 32 + 64);
  for (int j = 0; j < 4; j++) view.values[j] = VP_STRIDE == 1 ? src + g_n * j : src + j;
  g_view = &view;
  g_room = vp_alloc(8 * PV(g_n));
  g_reserve_rc = vp_int();
  P.coords.size_bytes = vp_i64();
  VP_ASSUME(P.coords.size_bytes >= 0 && P.coords.size_bytes <= (int64_t)VP_MAX_OBJ);
  int64_t size = P.coords.size_bytes;
  int rc = coords_geometry(&V, &view);
  if (rc == 0) {
    VP_ASSERT(G.size_nodes > 0, "coordinates need a geometry");
    VP_ASSERT(g_reserved == (int64_t)PV(g_n), "room for all values");
    VP_ASSERT(P.coords.size_bytes == size + (int64_t)(8 * PV(g_n)), "all values are added");
    VP_REACH("coords");
  } else VP_ASSERT(P.coords.size_bytes == size, "a refused event adds nothing");
}
#endif
void harness_ends(void) {
  start();
  VP_ASSUME(P.current_level >= 0 && P.current_level <= 31);
  struct GeoArrowGeometryPrivate o = P;
  int64_t n = G.size_nodes = vp_i64();
  int rc = vp_bool() ? ring_end_geometry(&V) : geom_end_geometry(&V);
  VP_ASSERT((rc == 0) == (o.current_level > 0), "only what is open can be ended");
  VP_ASSERT(P.current_level == (rc ? o.current_level : o.current_level - 1), "one level up");
  VP_ASSERT(G.size_nodes == n && P.coords.size_bytes == o.coords.size_bytes && P.coords.data == o.coords.data, "nothing else changes");
  VP_REACH("end");
}
void harness_feat_start(void) {
  start();
  nodes();
  P.coords.capacity_bytes = vp_i64();
  VP_ASSUME(P.coords.capacity_bytes >= 0 && P.coords.capacity_bytes <= (int64_t)VP_MAX_OBJ);
  P.coords.data = P.coords.capacity_bytes ? vp_alloc(P.coords.capacity_bytes) : 0;
  int rc = feat_start_geometry(&V);
  VP_ASSERT(rc == 0 && G.size_nodes == 0 && P.coords.size_bytes == 0 && P.current_level == 0 && SYNC, "a feature starts from nothing");
  VP_REACH("feature");
}
void harness_feat_end(void) {
  start();
  g_nn = G.size_nodes = vp_i64();
  VP_ASSUME(g_nn >= 0 && g_nn <= MAX_NODES);
  G.root = g_root = malloc((g_nn + 1) * sizeof(*g_root));
  VP_ASSUME(g_root != 0);
  G.root = ++g_root; /* a cursor one before the first node compares less */
  g_csize = vp_size();
  VP_ASSUME(g_csize <= VP_MAX_OBJ >> 4);
  P.coords.size_bytes = (int64_t)g_csize;
  g_old = P.coords.data = vp_alloc(g_csize);
  int rc = feat_end_geometry(&V);
  VP_ASSERT((rc == 0) == (g_nn > 0), "a feature without a geometry is refused");
  if (rc == 0) VP_REACH("feature");
}

/* C14 */
#ifdef VP_NV
void harness_visit_seq(void) {
  start();
  events();
  struct GeoArrowGeometryNode node;
  g_seq = &node;
  node.dimensions = VP_DIMS;
  g_nv = VP_NV;
  g_chunk = 384 / VP_NV;
  g_src = vp_alloc(VP_MAX_OBJ);
  for (uint32_t j = 0; j < 4; j++) {
    g_stride[j] = node.coord_stride[j];
    VP_ASSUME(ADDR(j, 0) <= VP_MAX_OBJ);
    node.coords[j] = g_src + ADDR(j, 0);
  }
  int rc = GeoArrowGeometryVisitSequence(&node, &V);
  if (g_failed) VP_ASSERT(rc == g_fcode, "a failing callback's code is returned");
  else {
    VP_ASSERT(rc == 0 && g_reported == node.size && !g_pending, "the whole sequence is reported");
    VP_REACH("sequence");
  }
}
#endif
static struct GeoArrowGeometryNode* list(void) {
  g_avail = vp_i64();
  VP_ASSUME(g_avail >= 0 && g_avail <= MAX_NODES);
  struct GeoArrowGeometryNode* n = malloc(g_avail * sizeof(*n));
  VP_ASSUME(n != 0);
  return n;
}
void harness_visit_node(void) {
  start();
  events();
  struct GeoArrowGeometryNode* n = list();
  g_n0 = n;
  int64_t left = g_avail;
  int rc = GeoArrowGeometryVisitNode(n, &left, &V);
  if (g_failed) {
    VP_ASSERT(rc == g_fcode, "a failing callback's code is returned");
  } else if (rc == 0) {
    VP_ASSERT(left >= 0 && left < g_avail, "a geometry uses up its nodes");
    VP_ASSERT(g_ev[1] == 1 && g_ev[5] == 1, "a geometry that was started is ended");
    int t = n->geometry_type;
    VP_ASSERT(t >= 1 && t <= 7, "only known types");
    VP_ASSERT(t > 2 || (g_ev[3] == 1 && g_last_seq == n && left == g_avail - 1), "a sequence is reported");
    VP_ASSERT(t != 3 || (g_ev[2] == n->size && g_ev[3] == n->size && g_ev[4] == n->size && left == g_avail - 1 - (int64_t)n->size), "every ring is reported");
    VP_ASSERT(t < 4 || g_ev[7] == n->size, "every member is reported");
    if (t == 1) VP_REACH("point");
    if (t == 3) VP_REACH("polygon");
    if (t == 7) VP_REACH("collection");
  } else {
    VP_ASSERT(g_avail == 0 || n->geometry_type < 1 || n->geometry_type > 7 || (n->geometry_type == 3 && (int64_t)n->size > g_avail - 1), "only an inconsistent list is refused");
    VP_REACH("refused");
  }
  VP_ASSERT(left >= -1, "at most one node too many is counted");
}
/* the root */
static GeoArrowErrorCode vp_visit_root(const struct GeoArrowGeometryNode* n, int64_t* left, struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ev[0] == 1 && *left == g_avail && n == g_n0, "the root is visited with all nodes");
  return vp_visit_node(n, left, v);
}
void harness_visit_root(void) {
  start();
  events();
  struct GeoArrowGeometryNode* n = list();
  g_n0 = n;
  struct GeoArrowGeometryView view = {n, g_avail};
  G.root = n;
  G.size_nodes = g_avail;
  int rc = vp_bool() ? GeoArrowGeometryVisit(&G, &V) : GeoArrowGeometryViewVisit(view, &V);
  if (g_failed) VP_ASSERT(rc == g_fcode, "a failing callback's code is returned");
  else VP_ASSERT(rc == 0 ? g_ev[0] == 1 && g_ev[7] == 1 && g_ev[6] == 1 : g_ev[6] == 0, "a feature that was started is ended unless nodes are left over");
  if (rc == 0) VP_REACH("visit"); else if (!g_failed) VP_REACH("nodes left over");
}
/* C15 */
void harness_deep(void) {
  start();
  g_nn = vp_i64();
  VP_ASSUME(g_nn >= 0 && g_nn <= MAX_NODES);
  g_srcn = malloc(g_nn * sizeof(*g_srcn));
  g_dstn = malloc(g_nn * sizeof(*g_dstn));
  VP_ASSUME(g_srcn != 0 && g_dstn != 0);
  sum_facts(-1);
  struct GeoArrowGeometryView src = {g_srcn, g_nn};
  int rc = GeoArrowGeometryDeepCopy(src, &G);
  if (rc == 0) VP_REACH("deep copy");
}
