/* WKB reading (C01, C02). Under contract: the sequence reader, the recursive node reader (with
 * its own contract in place of the recursive call), and the public read. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

struct WKBReaderPrivate;
static const uint8_t* g_buf;   /* the blob */
static size_t g_total;         /* its length */
static size_t g_off0;          /* where the geometry under test starts */
static uint8_t g_level;
static uint32_t g_size;        /* the count its header announces */
static int g_swap;             /* the byte order its header announces */
static struct GeoArrowGeometryNode *g_node, g_saved; /* the node being read; may be moved */
static struct GeoArrowGeometryNode* g_new;           /* the node most recently appended */
static uint64_t g_appended, g_children;
/* the most recent sequence read */
static size_t g_seq_at, g_seq_end;
static uint32_t g_seq_n, g_seq_nd;
static uint64_t g_seq_calls;
static struct GeoArrowGeometryNode* g_seq_node;
/* at the start of the arbitrary iteration */
static size_t g_it_off;
static uint64_t g_it_calls, g_it_appended, g_it_children;
static int g_nd;

static GeoArrowErrorCode vp_append_node(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out);
static GeoArrowErrorCode vp_read_coords(struct WKBReaderPrivate* s, uint32_t n, uint32_t nd,
                                        struct GeoArrowGeometryNode* node, struct GeoArrowError* error);
static GeoArrowErrorCode vp_read_node(struct WKBReaderPrivate* s, struct GeoArrowGeometryNode* node,
                                      struct GeoArrowError* error);
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return vp_int(); }

static uint32_t rd32(size_t at, int swap) {
  uint32_t a = g_buf[at], b = g_buf[at + 1], c = g_buf[at + 2], d = g_buf[at + 3];
  return swap ? (a << 24 | b << 16 | c << 8 | d) : (d << 24 | c << 16 | b << 8 | a);
}

/* Representation invariant: the cursor is inside the blob and the remaining size is exact. */
#define RINV(s) ((s)->data0 == g_buf && VP_SAME((s)->data, g_buf) && VP_OFF((s)->data) <= g_total && \
                 (s)->size_bytes == (int64_t)(g_total - VP_OFF((s)->data)))
#define NBYTES(n, nd) ((nd) == 2 ? (uint64_t)(n) << 4 : (nd) == 3 ? ((uint64_t)(n) << 4) + ((uint64_t)(n) << 3) : (uint64_t)(n) << 5)

/* An append may move the list: pointers to earlier nodes are no longer valid then. */
static void vp_move_nodes(void) {
  if (g_node && vp_bool()) {
    g_saved = *g_node;
    free(g_node);
    g_node = 0;
  }
}

/* Loop contracts. */
#define HAVOC_CURSOR(s) \
  vp_modifies((s), sizeof(*(s))); { size_t vp_o = vp_size(); __CPROVER_assume(vp_o <= g_total); \
    (s)->data = g_buf + vp_o; (s)->size_bytes = (int64_t)(g_total - VP_OFF((s)->data)); (s)->need_swapping = vp_int(); }
#define INV_RINGS(M, s, i) \
  M(RINV(s), "the cursor stays inside the blob") \
  M((i) <= g_size && g_appended == (i) && g_seq_calls == (i), "one node and one sequence per ring") \
  M(VP_OFF((s)->data) >= g_off0 + 9, "the header was consumed")  \
  M(((s)->need_swapping != 0) == g_swap, "byte order")
#define HAVOC_RINGS(s, i) HAVOC_CURSOR(s) vp_move_nodes(); VP_HAVOC(g_appended); VP_HAVOC(g_seq_calls);
#define BEFORE_RINGS(s, i) g_it_off = VP_OFF((s)->data); g_it_calls = g_seq_calls; g_it_appended = g_appended;
#define STEP_RINGS(M, s, i) \
  M(g_appended == g_it_appended + 1 && g_seq_calls == g_it_calls + 1 && g_seq_node == g_new, "a ring is one node with one sequence") \
  M(g_seq_n == rd32(g_it_off, g_swap) && g_seq_nd == (uint32_t)g_nd && g_seq_at == g_it_off + 4, "a ring is its count and the coordinates that follow") \
  M(VP_OFF((s)->data) == g_seq_end, "the next ring follows") \
  M(g_new->size == g_seq_n && g_new->geometry_type == GEOARROW_GEOMETRY_TYPE_LINESTRING, "the ring's node is a linestring of that size") \
  M(g_new->level == g_level + 1, "the ring's level") \
  M(g_new->dimensions == (g_node ? g_node->dimensions : g_saved.dimensions), "the ring's dimensions") \
  M(((g_new->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) != 0) == g_swap, "the ring's byte order")
#define INV_PARTS(M, s, i) \
  M(RINV(s), "the cursor stays inside the blob") \
  M((i) <= g_size && g_appended == (i) && g_children == (i), "one node per member") \
  M(VP_OFF((s)->data) >= g_off0 + 9, "the header was consumed")
#define HAVOC_PARTS(s, i) HAVOC_CURSOR(s) vp_move_nodes(); VP_HAVOC(g_appended); VP_HAVOC(g_children);
#define BEFORE_PARTS(s, i) g_it_off = VP_OFF((s)->data); g_it_children = g_children; g_it_appended = g_appended;
#define STEP_PARTS(M, s, i) \
  M(g_appended == g_it_appended + 1 && g_children == g_it_children + 1, "a member is one node, read once")

#include "geoarrow/wkb_reader.c"

/* Contract of GeoArrowGeometryAppendNodeInline (proved by unit geom-append): fails, or yields
 * a zeroed node whose coordinates all point at the shared empty coordinate. */
static GeoArrowErrorCode vp_append_node(struct GeoArrowGeometry* geom, struct GeoArrowGeometryNode** out) {
  vp_move_nodes();
  if (vp_bool()) return ENOMEM;
  g_new = vp_alloc(sizeof(*g_new));
  memset(g_new, 0, sizeof(*g_new));
  for (int i = 0; i < 4; i++) g_new->coords[i] = _GeoArrowkEmptyPointCoords;
  g_appended++;
  VP_ASSUME(geom->size_nodes >= 0 && geom->size_nodes < (int64_t)VP_MAX_OBJ);
  geom->size_nodes++;
  *out = g_new;
  return GEOARROW_OK;
}

/* Contract of the sequence reader, proved by unit wkb-coords. */
static GeoArrowErrorCode vp_read_coords(struct WKBReaderPrivate* s, uint32_t n, uint32_t nd,
                                        struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
  VP_ASSERT(RINV(s), "a sequence is read from a valid cursor");
  VP_ASSERT(nd >= 2 && nd <= 4, "a sequence has 2 to 4 ordinates");
  size_t at = VP_OFF(s->data);
  g_seq_at = at;
  g_seq_n = n;
  g_seq_nd = nd;
  g_seq_node = node;
  g_seq_calls++;
  if (g_total - at < NBYTES(n, nd)) return EINVAL;
  if (n > 0) {
    for (uint32_t i = 0; i < 4; i++) {
      if (i < nd) node->coords[i] = g_buf + at + 8 * i;
      if (i < nd) node->coord_stride[i] = 8 * nd;
    }
  }
  g_seq_end = at + NBYTES(n, nd);
  s->data = g_buf + g_seq_end;
  s->size_bytes = (int64_t)(g_total - VP_OFF(s->data));
  return GEOARROW_OK;
}

/* Contract of the node reader, used for the recursive call. */
static GeoArrowErrorCode vp_read_node(struct WKBReaderPrivate* s, struct GeoArrowGeometryNode* node,
                                      struct GeoArrowError* error) {
  VP_ASSERT(RINV(s), "a nested geometry is read from a valid cursor");
  VP_ASSERT(g_level < 255 && node->level == g_level + 1, "a nested geometry is one level deeper");
  VP_ASSERT(node == g_new, "a nested geometry is read into its own node");
  VP_ASSERT(VP_OFF(s->data) == g_it_off, "a nested geometry starts where the previous one ended");
  VP_ASSERT(node->flags == 0, "a nested geometry's byte order is its own");
  size_t off = VP_OFF(s->data);
  size_t adv = vp_size();
  int rc = vp_int();
  g_children++;
  vp_move_nodes();
  VP_ASSUME(adv <= g_total - off);
  VP_ASSUME(rc != 0 || adv >= 9);
  s->data = g_buf + off + adv;
  s->size_bytes = (int64_t)(g_total - VP_OFF(s->data));
  s->need_swapping = vp_int();
  return rc;
}

#ifdef VP_PROOF
static void one_coords(const uint32_t nd) {
  struct WKBReaderPrivate s;
  struct GeoArrowError err;
  struct GeoArrowGeometryNode node, old;
  size_t off = vp_size();
  uint32_t n = vp_u32(), d = vp_u32();
  VP_ASSUME(off <= g_total);
  s.data0 = g_buf;
  s.data = g_buf + off;
  s.size_bytes = (int64_t)(g_total - off);
  s.need_swapping = vp_int();
  for (int i = 0; i < 4; i++) node.coords[i] = _GeoArrowkEmptyPointCoords;
  old = node;
  int swap0 = s.need_swapping;
  int rc = WKBReaderReadNodeCoordinates(&s, n, nd, &node, vp_bool() ? &err : 0);
  VP_ASSERT((rc == GEOARROW_OK) == (g_total - off >= NBYTES(n, nd)), "a sequence is accepted exactly if it fits");
  size_t adv = rc == GEOARROW_OK ? NBYTES(n, nd) : 0;
  VP_ASSERT(s.data == g_buf + off + adv && s.size_bytes == (int64_t)(g_total - off - adv) && s.data0 == g_buf,
            "the cursor moves past exactly the coordinates");
  VP_ASSERT(s.need_swapping == swap0, "byte order is kept");
  VP_ASSUME(d < 4);
  if (rc == GEOARROW_OK && n > 0 && d < nd) {
    VP_ASSERT(node.coords[d] == g_buf + off + 8 * d && node.coord_stride[d] == (int32_t)(8 * nd), "coordinates follow the header");
    VP_ASSERT(NBYTES(n - 1, nd) + 8 * d + 8 <= g_total - off, "every coordinate lies inside the blob");
    VP_REACH("sequence read");
  } else {
    VP_ASSERT(node.coords[d] == old.coords[d] && node.coord_stride[d] == old.coord_stride[d], "nothing else is set");
  }
  VP_ASSERT(node.size == old.size && node.geometry_type == old.geometry_type && node.flags == old.flags &&
            node.dimensions == old.dimensions && node.level == old.level, "the rest of the node is kept");
}
static void setup(void) {
  vp_init();
  g_total = vp_size();
  VP_ASSUME(g_total <= VP_MAX_OBJ);
  g_buf = vp_alloc(g_total);
}
void harness_coords(void) {
  setup();
  one_coords(2);
  one_coords(3);
  one_coords(4);
}

void harness(void) {
  setup();
  struct WKBReaderPrivate s;
  struct GeoArrowError err;
  size_t off = vp_size();
  VP_ASSUME(off <= g_total);
  s.data0 = g_buf;
  s.data = g_buf + off;
  s.size_bytes = (int64_t)(g_total - off);
  s.need_swapping = vp_int();
  /* the caller hands over a freshly appended node with a level */
  g_node = vp_alloc(sizeof(*g_node));
  memset(g_node, 0, sizeof(*g_node));
  for (int i = 0; i < 4; i++) g_node->coords[i] = _GeoArrowkEmptyPointCoords;
  g_level = g_node->level = vp_u8();
  g_off0 = off;
  /* what the header denotes, decoded independently */
  uint32_t type = 0, iso = 0;
  size_t p = off + 5;
  int z = 0, m = 0;
  _Bool head = g_total - off >= 5, whole = 0;
  if (head) {
    g_swap = g_buf[off] != GEOARROW_NATIVE_ENDIAN;
    uint32_t code = rd32(off + 1, g_swap);
    z = (code >> 31) & 1, m = (code >> 30) & 1;
    if ((code >> 29) & 1) p += 4;
    uint32_t low = code & 0xffff;
    iso = low >= 3000 ? 3 : low >= 2000 ? 2 : low >= 1000 ? 1 : 0;
    type = low - 1000 * iso;
    if (iso == 1 || iso == 3) z = 1;
    if (iso == 2 || iso == 3) m = 1;
    g_nd = 2 + z + m;
    g_size = 1;
    if (type == 1) whole = p <= g_total;
    if (type != 1 && p + 4 <= g_total) {
      whole = 1;
      g_size = rd32(p, g_swap);
      p += 4;
    }
  }

  int rc = WKBReaderReadNodeGeometry(&s, g_node, vp_bool() ? &err : 0);

  VP_ASSERT(RINV(&s), "the cursor stays inside the blob");
  if (rc == GEOARROW_OK) {
    struct GeoArrowGeometryNode node = g_node ? *g_node : g_saved;
    VP_ASSERT(head && whole, "a header cut short is rejected");
    VP_ASSERT(VP_OFF(s.data) >= off + 9, "a geometry consumes its header");
    VP_ASSERT(node.level == g_level, "the level is kept");
    VP_ASSERT(type >= 1 && type <= 7, "only known type codes are accepted");
    VP_ASSERT(node.geometry_type == type, "geometry type");
    VP_ASSERT(node.dimensions == (z && m ? 4 : m ? 3 : z ? 2 : 1), "dimensions");
    VP_ASSERT(((node.flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) != 0) == g_swap, "byte order flag");
    VP_ASSERT(node.size == g_size, "element count");
    if (type <= 2) {
      VP_ASSERT(g_seq_calls == 1 && g_seq_n == g_size && g_seq_nd == (uint32_t)g_nd && g_appended == 0,
                "the announced coordinates are read, once");
      VP_ASSERT(g_seq_at == p, "coordinates follow the header");
      VP_ASSERT(s.data == g_buf + g_seq_end, "a sequence consumes exactly its coordinates");
      if (type == 1) VP_REACH("point read");
      if (type == 2 && g_size > 100) VP_REACH("linestring read");
    } else {
      VP_ASSERT(g_appended == g_size, "one node per ring or member");
      VP_ASSERT(type == 3 ? g_seq_calls == g_size : g_children == g_size, "every ring or member is read");
      if (type == 3 && g_size > 2) VP_REACH("polygon read");
      if (type == 7 && g_size > 2) VP_REACH("collection read");
    }
  } else {
    VP_REACH("rejected");
  }
}

/* The public read. */
static struct GeoArrowBufferView g_src;
static uint64_t g_tops;
static struct GeoArrowGeometry* g_geom;
static int g_top_rc;
static GeoArrowErrorCode vp_top_read(struct WKBReaderPrivate* s, struct GeoArrowGeometryNode* node,
                                     struct GeoArrowError* error) {
  VP_ASSERT(s->data0 == g_src.data && s->data == g_src.data && s->size_bytes == g_src.size_bytes,
            "reading starts at the first byte of the blob, and knows its length");
  VP_ASSERT(node == g_new && g_appended == 1 && s->geom.size_nodes == 1 && node->level == 0,
            "the root is the only node");
  g_tops++;
  g_top_rc = vp_int();
  s->geom.size_nodes = vp_i64();
  return g_top_rc;
}
GeoArrowErrorCode GeoArrowGeometryResizeNodes(struct GeoArrowGeometry* geom, int64_t n) {
  if (vp_bool()) return ENOMEM;
  geom->size_nodes = n;
  return GEOARROW_OK;
}
void harness_top(void) {
  setup();
  struct WKBReaderPrivate s;
  struct GeoArrowWKBReader reader = {&s};
  struct GeoArrowGeometryView view;
  g_src.data = g_buf;
  g_src.size_bytes = (int64_t)g_total;
  /* whatever an earlier read left behind */
  s.geom.root = (struct GeoArrowGeometryNode*)vp_poison;
  s.geom.size_nodes = vp_i64();
  s.geom.capacity_nodes = vp_i64();
  s.data = s.data0 = (const uint8_t*)vp_poison;
  VP_ASSUME(s.geom.size_nodes >= 0 && s.geom.size_nodes <= s.geom.capacity_nodes);
  view.size_nodes = -7;
  int rc = GeoArrowWKBReaderRead(&reader, g_src, &view, 0);
  if (rc == GEOARROW_OK) {
    VP_ASSERT(g_tops == 1 && g_top_rc == GEOARROW_OK, "the blob is read, once");
    VP_ASSERT(view.root == s.geom.root && view.size_nodes == s.geom.size_nodes, "the view is the list of nodes read");
    VP_REACH("read");
  } else {
    VP_ASSERT(view.size_nodes == -7, "a failed read gives no view");
    VP_REACH("refused");
  }
  VP_ASSERT(g_tops == 0 || rc == g_top_rc, "a failed read is reported");
}
#else
/* Bounded stand-in, public interface only: whole reads of blobs of at most VP_N bytes. */
#ifndef VP_N
#define VP_N 31
#endif
void harness(void) {
  struct GeoArrowWKBReader reader;
  struct GeoArrowGeometryView view;
  if (GeoArrowWKBReaderInit(&reader) != GEOARROW_OK) return;
  g_total = vp_size();
  VP_ASSUME(g_total <= VP_N);
  uint8_t bytes[VP_N];
  g_buf = vp_alloc(g_total);
  struct GeoArrowBufferView src = {g_buf, (int64_t)g_total};
  int rc = GeoArrowWKBReaderRead(&reader, src, &view, 0);
  if (rc == GEOARROW_OK) {
    VP_ASSERT(view.size_nodes >= 1, "a root node");
    for (int64_t i = 0; i < view.size_nodes; i++) {
      const struct GeoArrowGeometryNode* nd = view.root + i;
      VP_ASSERT(nd->geometry_type >= 1 && nd->geometry_type <= 7, "only known type codes are accepted");
      if (nd->geometry_type <= 2 && nd->size > 0) {
        int n = nd->dimensions == 1 ? 2 : nd->dimensions == 4 ? 4 : 3;
        for (int d = 0; d < 4; d++)
          if (d < n)
            VP_ASSERT(VP_SAME(nd->coords[d], g_buf) && VP_OFF(nd->coords[d]) + (uint64_t)(nd->size - 1) * 8 * n + 8 <= g_total,
                    "every coordinate lies inside the blob");
      }
    }
    VP_REACH("accepted");
  }
}
#endif
