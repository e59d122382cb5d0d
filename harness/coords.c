/* C08: copying coordinates. */
#include "vp.h"
#include "geoarrow/geoarrow_type.h"

/* Address of the i-th value of ordinate j: a recursive specification function,
 * addr(j, 0) = start of j, addr(j, i + 1) = addr(j, i) + stride of j. Its defining equations
 * are instantiated where they are used. */
uint64_t __CPROVER_uninterpreted_addr(uint32_t j, uint32_t i);
#define ADDR __CPROVER_uninterpreted_addr

static uint8_t *g_src, *g_dst;
static size_t g_src_n, g_dst_n;
static uint32_t g_nv, g_n;        /* ordinates per coordinate, coordinates */
static int32_t g_stride[4];
static _Bool g_any;
static uint32_t g_k, g_d;         /* the witness value: ordinate d of coordinate k */
static size_t g_f;                /* a witness byte of the destination outside the range */
static uint8_t g_fval;
static uint64_t g_want;           /* the witness value's bits in the source */

#define NB(i, nv) ((nv) == 2 ? (uint64_t)(i) << 4 : (nv) == 3 ? ((uint64_t)(i) << 4) + ((uint64_t)(i) << 3) : (uint64_t)(i) << 5)
#define WPOS (NB(g_k, g_nv) + 8 * g_d)
static uint64_t ld(const uint8_t* p) {
  return (uint64_t)p[0] | (uint64_t)p[1] << 8 | (uint64_t)p[2] << 16 | (uint64_t)p[3] << 24 |
         (uint64_t)p[4] << 32 | (uint64_t)p[5] << 40 | (uint64_t)p[6] << 48 | (uint64_t)p[7] << 56;
}
static uint64_t bswap(uint64_t x) {
  return x << 56 | (x & 0xff00ULL) << 40 | (x & 0xff0000ULL) << 24 | (x & 0xff000000ULL) << 8 |
         (x >> 8 & 0xff000000ULL) | (x >> 24 & 0xff0000ULL) | (x >> 40 & 0xff00ULL) | x >> 56;
}
/* The defining equation at i, and the precondition that coordinate i is readable. */
static void at_index(uint32_t i) {
  for (uint32_t j = 0; j < 4; j++) {
    if (j < g_nv) {
      VP_ASSUME(ADDR(j, i) <= g_src_n && g_src_n - ADDR(j, i) >= 8);
      VP_ASSUME(ADDR(j, i + 1) == ADDR(j, i) + (uint64_t)(int64_t)g_stride[j]);
    }
  }
}

#define INV_SEQ(M, dst, src, i) \
  M((i) <= g_n, "coordinates are counted") \
  M(VP_SAME((dst), g_dst) && VP_OFF(dst) == NB((i), g_nv), "the output cursor follows the coordinates written") \
  M(VP_SAME((src)[0], g_src) && VP_OFF((src)[0]) == ADDR(0, (i)) && VP_SAME((src)[1], g_src) && VP_OFF((src)[1]) == ADDR(1, (i)), "x and y cursors") \
  M(g_nv < 3 || (VP_SAME((src)[2], g_src) && VP_OFF((src)[2]) == ADDR(2, (i))), "third cursor") \
  M(g_nv < 4 || (VP_SAME((src)[3], g_src) && VP_OFF((src)[3]) == ADDR(3, (i))), "fourth cursor") \
  M(!g_any || (i) <= g_k || ld(g_dst + WPOS) == g_want, "values already written stay") \
  M(g_f >= g_dst_n || g_dst[g_f] == g_fval, "nothing outside the range is written")
#define HAVOC_SEQ(dst, src, i) \
  dst = g_dst + NB((i), g_nv); for (int vp_j = 0; vp_j < 4; vp_j++) (src)[vp_j] = g_src + ADDR(vp_j, (i)); \
  VP_ASSUME((i) <= g_n); if ((i) < g_n) at_index(i); \
  vp_modifies(g_dst, g_dst_n); __CPROVER_havoc_object(g_dst)
#define BEFORE_SEQ(dst, src, i)
#define STEP_SEQ(M, dst, src, i)

#define INV_SWAP(M, p, dst) \
  M(VP_SAME((p), g_dst) && VP_OFF(p) <= NB(g_n, g_nv) && (VP_OFF(p) & 7) == 0, "the cursor is on a value") \
  M(!g_any || ld(g_dst + WPOS) == (VP_OFF(p) > WPOS ? bswap(g_want) : g_want), "a value is converted once") \
  M(g_f >= g_dst_n || g_dst[g_f] == g_fval, "nothing outside the range is written")
#define HAVOC_SWAP(p, dst) \
  { size_t vp_o = vp_size(); VP_ASSUME(vp_o <= NB(g_n, g_nv)); p = g_dst + vp_o; } \
  vp_modifies(g_dst, g_dst_n); __CPROVER_havoc_object(g_dst)
#define BEFORE_SWAP(p, dst)
#define STEP_SWAP(M, p, dst)

#include "geoarrow/geoarrow.h"

static void seq(const uint32_t nv, const uint8_t dims) {
  struct GeoArrowGeometryNode node;
  vp_init();
  g_src_n = vp_size();
  g_dst_n = vp_size();
  VP_ASSUME(g_src_n <= VP_MAX_OBJ && g_dst_n <= VP_MAX_OBJ);
  g_src = vp_alloc(g_src_n);
  g_dst = vp_alloc(g_dst_n);
  g_nv = nv;
  g_n = node.size = vp_u32();
  node.dimensions = dims;
  for (uint32_t j = 0; j < 4; j++) {
    g_stride[j] = node.coord_stride[j];
    if (j < nv) VP_ASSUME(ADDR(j, 0) <= g_src_n);
    if (j < nv) node.coords[j] = g_src + ADDR(j, 0);
  }
  int64_t dst_size = vp_i64();
  VP_ASSUME(dst_size <= (int64_t)g_dst_n);
  uint64_t need = NB(g_n, nv);
  g_k = vp_u32();
  g_d = vp_u32();
  g_f = vp_size();
  _Bool any = g_any = g_n > 0;
  VP_ASSUME(!any || (g_k < g_n && g_d < nv));
  if (any) at_index(g_k);
  if (any) g_want = ld(g_src + ADDR(g_d, g_k));
  _Bool fits = dst_size >= 0 && need <= (uint64_t)dst_size;
  VP_ASSUME(!fits || g_f >= need);
  if (g_f < g_dst_n) g_fval = g_dst[g_f];
  _Bool swap = (node.flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) != 0;
  int64_t got = GeoArrowGeometryNodeWriteSequence(&node, g_dst, dst_size);
  VP_ASSERT(got == (int64_t)need, "the size reported is the true size");
  VP_ASSERT(g_f >= g_dst_n || g_dst[g_f] == g_fval, "nothing outside the range is written");
  if (any && fits) {
    VP_ASSERT(ld(g_dst + WPOS) == (swap ? bswap(g_want) : g_want), "every value is copied bit for bit");
    if (swap) VP_REACH("swapped"); else VP_REACH("copied");
  }
}
void harness_seq1(void) { seq(2, 1); }
void harness_seq2(void) { seq(3, 2); }
void harness_seq3(void) { seq(3, 3); }
void harness_seq4(void) { seq(4, 4); }
