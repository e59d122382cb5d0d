/* C08: copying the coordinates of a whole geometry into strided output, and counting them. */
#include "vp.h"
#include "geoarrow/geoarrow_type.h"

/* Specification functions, left uninterpreted; their defining equations are used where needed.
 * tt(m): coordinates in the sequences before node m. saddr<k>(m, j): where ordinate k of
 * coordinate j of node m is. oaddr<c>(t): where ordinate c of output coordinate t goes. */
int64_t __CPROVER_uninterpreted_tt(int64_t m);
uint64_t __CPROVER_uninterpreted_saddr0(int64_t m, uint32_t j);
uint64_t __CPROVER_uninterpreted_saddr1(int64_t m, uint32_t j);
uint64_t __CPROVER_uninterpreted_saddr2(int64_t m, uint32_t j);
uint64_t __CPROVER_uninterpreted_saddr3(int64_t m, uint32_t j);
uint64_t __CPROVER_uninterpreted_oaddr0(int64_t t);
uint64_t __CPROVER_uninterpreted_oaddr1(int64_t t);
uint64_t __CPROVER_uninterpreted_oaddr2(int64_t t);
uint64_t __CPROVER_uninterpreted_oaddr3(int64_t t);
#define TT __CPROVER_uninterpreted_tt
/* cbmc's pointers hold 56 bits of offset */
#define MASK 0xffffffffffffffULL
static uint64_t SADDR(int64_t m, int k, uint32_t j) {
  if (k == 0) return __CPROVER_uninterpreted_saddr0(m, j) & MASK;
  if (k == 1) return __CPROVER_uninterpreted_saddr1(m, j) & MASK;
  if (k == 2) return __CPROVER_uninterpreted_saddr2(m, j) & MASK;
  return __CPROVER_uninterpreted_saddr3(m, j) & MASK;
}
static uint64_t OADDR(int c, int64_t t) {
  if (c == 0) return __CPROVER_uninterpreted_oaddr0(t) & MASK;
  if (c == 1) return __CPROVER_uninterpreted_oaddr1(t) & MASK;
  if (c == 2) return __CPROVER_uninterpreted_oaddr2(t) & MASK;
  return __CPROVER_uninterpreted_oaddr3(t) & MASK;
}

static struct GeoArrowGeometryNode* g_root;
static int64_t g_n;
static uint8_t *g_src, *g_out;
static size_t g_src_n, g_out_n;
static int32_t g_ostride[4];
static int g_dims, g_nd;
/* the witness: ordinate g_c of coordinate g_j of node g_m, which is output coordinate g_t */
static int64_t g_m, g_t;
static uint32_t g_j;
static int g_c, g_from;
static uint64_t g_want;
static size_t g_f;   /* a witness byte of the output that belongs to no coordinate */
static uint8_t g_fval;
static int64_t g_cur; /* the node being copied */
static int64_t g_base; /* its first output coordinate */

static uint64_t ld(const uint8_t* p) { uint64_t x; memcpy(&x, p, 8); return x; }
static uint64_t bswap(uint64_t x) {
  return x << 56 | (x & 0xff00ULL) << 40 | (x & 0xff0000ULL) << 24 | (x & 0xff000000ULL) << 8 |
         (x >> 8 & 0xff000000ULL) | (x >> 24 & 0xff0000ULL) | (x >> 40 & 0xff00ULL) | x >> 56;
}
static int ordinates(int dim) { return dim == 1 ? 2 : dim == 4 ? 4 : 3; }
/* Which ordinate of `from` holds ordinate c of `to`. */
static int where(int from, int to, int c) {
  if (c < 2) return c;
  _Bool z = to == 2 || (to == 4 && c == 2);
  if (z) return from == 2 || from == 4 ? 2 : -1;
  return from == 3 ? 2 : from == 4 ? 3 : -1;
}
static _Bool isseq(int64_t m) { return g_root[m].geometry_type == 1 || g_root[m].geometry_type == 2; }
static _Bool g_any;      /* the geometry has coordinates */
static uint64_t g_w;     /* where the witness goes */
static int64_t g_t0;     /* the current node's first output coordinate */
static uint64_t g_oc[4]; /* where its first coordinate goes */
static uint64_t g_oe[4]; /* where the coordinate after its last goes */
/* What the caller guarantees about node m. */
static void node_ok(int64_t m, const int nd) {
  for (int k = 0; k < 4; k++)
    if (k < nd) {
      uint64_t a = SADDR(m, k, 0);
      VP_ASSUME(a <= g_src_n && g_root[m].coords[k] == g_src + a);
    }
}
/* Ordinate c of coordinate j of node m goes to output coordinate t; it comes from ordinate k. */
static void at_coord(int64_t m, uint32_t j, int64_t t, int c, int k) {
  if (k >= 0) {
    uint64_t a = SADDR(m, k, j);
    VP_ASSUME(a <= g_src_n && g_src_n - a >= 8);
    VP_ASSUME(SADDR(m, k, j + 1) == ((a + (uint64_t)(int64_t)g_root[m].coord_stride[k]) & MASK));
  }
  uint64_t o = OADDR(c, t);
  VP_ASSUME(o <= g_out_n && g_out_n - o >= 8);
  VP_ASSUME(OADDR(c, t + 1) == ((o + (uint64_t)(int64_t)g_ostride[c]) & MASK));
  /* places do not overlap */
  VP_ASSUME(!g_any || (c == g_c && t == g_t ? o == g_w : o + 8 <= g_w || g_w + 8 <= o));
  VP_ASSUME(o + 8 <= g_f || o > g_f);
}
#define WRITTEN(done, M) \
  M(!g_any || !(done) || ld(g_out + g_w) == g_want, "a coordinate written stays, with the value asked for") \
  M(g_f >= g_out_n || g_out[g_f] == g_fval, "nothing but coordinates is written")
#define IS(c, at) (VP_SAME(out_cursor[c], g_out) && (VP_OFF(out_cursor[c]) & MASK) == (at))
#define HAVOC_OUT vp_modifies(g_out, g_out_n); __CPROVER_havoc_object(g_out)
#ifndef VP_SRC
#define VP_SRC 1
#define VP_DIMS 1
#endif
#define ND ordinates(VP_DIMS)

static void next_node(void) {
  /* the equation of tt at this node, and its monotonicity */
  g_t0 = TT(g_cur);
  VP_ASSUME(g_t0 >= 0 && g_t0 <= (int64_t)VP_MAX_OBJ);
  if (g_cur < g_n) {
    int64_t t1 = g_t0 + (isseq(g_cur) ? (int64_t)g_root[g_cur].size : 0);
    VP_ASSUME(TT(g_cur + 1) == t1);
    if (g_any) VP_ASSUME(g_cur == g_m ? g_t == g_t0 + g_j : g_cur < g_m ? t1 <= g_t : g_t < g_t0);
    /* the proof is split by the dimensions of the node in the arbitrary iteration */
    if (isseq(g_cur)) {
      VP_ASSUME(g_root[g_cur].dimensions == VP_SRC);
      node_ok(g_cur, ordinates(VP_SRC));
      for (int c = 0; c < 4; c++) if (c < ND) g_oe[c] = OADDR(c, t1);
    }
  }
  for (int c = 0; c < 4; c++) if (c < ND) g_oc[c] = OADDR(c, g_t0);
}
#define INV_NODE(M, node, out_cursor) \
  M(VP_SAME((node), g_root) && (node) == g_root + g_cur && g_cur >= 0 && g_cur <= g_n, "nodes are taken in order") \
  { int64_t vp_t0 = TT(g_cur); \
  M(IS(0, OADDR(0, vp_t0)) && IS(1, OADDR(1, vp_t0)) && (ND < 3 || IS(2, OADDR(2, vp_t0))) && (ND < 4 || IS(3, OADDR(3, vp_t0))), "the output follows the coordinates copied") } \
  WRITTEN(g_cur > g_m, M)
#define HAVOC_NODE(node, out_cursor) \
  g_cur = vp_i64(); VP_ASSUME(g_cur >= 0 && g_cur <= g_n); node = g_root + g_cur; \
  next_node(); \
  for (int vp_j = 0; vp_j < 4; vp_j++) out_cursor[vp_j] = vp_j < ND ? g_out + g_oc[vp_j] : (uint8_t*)vp_poison; \
  HAVOC_OUT
#define BEFORE_NODE(node, out_cursor)
#define STEP_NODE(M, node, out_cursor) g_cur++;

/* Ordinate i of one node. */
#define FROM(i) where(VP_SRC, VP_DIMS, (i))
#define OTHER(c, i) ((c) == (i) || (c) >= ND || IS(c, (c) < (i) ? g_oe[c] : g_oc[c]))
#define INV_ORD(M, node, i, j, src_mapped, out_cursor) \
  M((node) == g_root + g_cur && (node)->dimensions == VP_SRC, "the node of this case") \
  M((j) <= (node)->size, "coordinates are counted") \
  M(OTHER(0, (i)) && OTHER(1, (i)) && OTHER(2, (i)) && OTHER(3, (i)), "the other ordinates' output") \
  M(IS((i), OADDR((i), g_t0 + (j))), "the output follows the coordinates copied") \
  M(FROM(i) < 0 ? (src_mapped) == _GeoArrowkEmptyPointCoords : \
    (VP_SAME((src_mapped), g_src) && (VP_OFF(src_mapped) & MASK) == SADDR(g_cur, FROM(i), (j))), "the source follows the coordinates copied") \
  WRITTEN(g_cur > g_m || (g_cur == g_m && (g_c < (int)(i) || (g_c == (int)(i) && g_j < (j)))), M)
#define HAVOC_ORD(node, i, j, src_mapped, out_cursor) \
  VP_ASSUME((j) <= (node)->size); \
  if ((j) < (node)->size) at_coord(g_cur, (j), g_t0 + (j), (i), FROM(i)); \
  for (int vp_j = 0; vp_j < 4; vp_j++) \
    out_cursor[vp_j] = vp_j >= ND ? (uint8_t*)vp_poison : g_out + (vp_j == (i) ? OADDR((i), g_t0 + (j)) : vp_j < (i) ? g_oe[vp_j] : g_oc[vp_j]); \
  src_mapped = FROM(i) < 0 ? _GeoArrowkEmptyPointCoords : g_src + SADDR(g_cur, FROM(i), (j)); \
  HAVOC_OUT
#define BEFORE_ORD(node, i, j, src_mapped, out_cursor)
#define STEP_ORD(M, node, i, j, src_mapped, out_cursor)
#define INV_ORDS INV_ORD
#define HAVOC_ORDS HAVOC_ORD
#define BEFORE_ORDS BEFORE_ORD
#define STEP_ORDS STEP_ORD

/* Counting. */
#define INV_CNT(M, node, count) \
  M(VP_SAME((node), g_root) && (node) == g_root + g_cur && g_cur >= 0 && g_cur <= g_n, "nodes are taken in order") \
  M((count) == TT(g_cur), "the coordinates of the sequences so far")
#define HAVOC_CNT(node, count) \
  g_cur = vp_i64(); VP_ASSUME(g_cur >= 0 && g_cur <= g_n); node = g_root + g_cur; count = TT(g_cur); \
  if (g_cur < g_n) VP_ASSUME(TT(g_cur) >= 0 && TT(g_cur) <= (int64_t)VP_MAX_OBJ && TT(g_cur + 1) == TT(g_cur) + (isseq(g_cur) ? (int64_t)g_root[g_cur].size : 0));
#define BEFORE_CNT(node, count)
#define STEP_CNT(M, node, count) g_cur++;

#include "geoarrow/geoarrow.h"

static void setup(void) {
  vp_init();
  g_n = vp_i64();
  VP_ASSUME(g_n >= 0 && g_n <= (int64_t)(VP_MAX_OBJ / sizeof(struct GeoArrowGeometryNode)));
  g_root = vp_alloc(g_n * sizeof(struct GeoArrowGeometryNode));
  VP_ASSUME(TT(0) == 0);
}
static void gen(const int dims) {
  setup();
  g_src_n = vp_size();
  g_out_n = vp_size();
  VP_ASSUME(g_src_n <= VP_MAX_OBJ && g_out_n <= VP_MAX_OBJ);
  g_src = vp_alloc(g_src_n);
  g_out = vp_alloc(g_out_n);
  g_dims = dims;
  g_nd = ordinates(dims);
  uint8_t* out[4];
  for (int c = 0; c < 4; c++) {
    out[c] = (uint8_t*)vp_poison;
    g_ostride[c] = vp_i32();
    if (c < g_nd) {
      VP_ASSUME(OADDR(c, 0) <= g_out_n);
      out[c] = g_out + OADDR(c, 0);
    }
  }
  g_m = vp_i64();
  g_j = vp_u32();
  g_c = vp_int();
  g_f = vp_size();
  VP_ASSUME(g_m >= 0 && g_c >= 0 && g_c < g_nd);
  _Bool any = g_any = g_m < g_n && isseq(g_m) && g_j < g_root[g_m].size;
  int from = -1;
  if (any) {
    VP_ASSUME(g_root[g_m].dimensions >= 1 && g_root[g_m].dimensions <= 4);
    g_t = TT(g_m) + g_j;
    g_w = OADDR(g_c, g_t);
    from = where(g_root[g_m].dimensions, dims, g_c);
    at_coord(g_m, g_j, g_t, g_c, from);
    g_want = ld(from < 0 ? _GeoArrowkEmptyPointCoords : g_src + SADDR(g_m, from, g_j));
    if (from >= 0 && (g_root[g_m].flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) g_want = bswap(g_want);
  }
  if (g_f < g_out_n) g_fval = g_out[g_f];
  struct GeoArrowGeometryView view = {g_root, g_n};
  GeoArrowGeometryViewCopyCoordsGeneric(view, out, g_ostride, (enum GeoArrowDimensions)dims);
  VP_ASSERT(g_f >= g_out_n || g_out[g_f] == g_fval, "nothing but coordinates is written");
  if (any) {
    VP_ASSERT(ld(g_out + g_w) == g_want, "every ordinate is copied, or NaN where the source lacks it");
    VP_REACH("copied");
  }
}
void harness(void) { gen(VP_DIMS); }
void harness_count(void) {
  setup();
  struct GeoArrowGeometryView view = {g_root, g_n};
  int64_t got = GeoArrowGeometryViewNumCoords(view);
  VP_ASSERT(got == TT(g_n), "the number of coordinates is the sum over the sequences");
  if (g_n > 2) VP_REACH("counted");
}
