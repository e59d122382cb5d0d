/* C08: copying between coordinate views of any dimensions and layout. */
#include "vp.h"
#include "geoarrow/geoarrow_type.h"

/* Element index of coordinate i in the source: a specification function left
 * uninterpreted, so that the proof holds for every stride. */
int64_t __CPROVER_uninterpreted_spos(int64_t i);
#define SPOS __CPROVER_uninterpreted_spos
/* Likewise in the destination. Rows lie at least a row's width apart (lemma_rows). */
int64_t __CPROVER_uninterpreted_dpos(int64_t i);
#define DPOS __CPROVER_uninterpreted_dpos

static struct GeoArrowCoordView g_sv;
static struct GeoArrowWritableCoordView g_dv;
static double* g_src;
static size_t g_src_n;               /* elements of the source */
static int64_t g_n, g_soff, g_doff;
static int64_t g_r, g_pos;           /* the witness element of the destination: row, index */
static int g_c;                      /* ... and ordinate */
static size_t g_rows;                /* rows the destination has room for */
static int64_t g_width;              /* elements a row takes */
static _Bool g_in;                   /* it belongs to the requested range */
static uint64_t g_old, g_want;

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

/* Contract of the access macro (proved by harness_value): element (row, col) of a view. */
static int64_t vp_drow(int64_t row) {
  int64_t p = DPOS(row), q = DPOS(g_r);
  VP_ASSERT(row >= 0 && (uint64_t)row < g_rows, "only rows of the destination are touched");
  VP_ASSUME(p >= 0 && p <= (int64_t)(g_rows * g_width) - g_width);
  VP_ASSUME(row == g_r || p >= q + g_width || p + g_width <= q);
  return p;
}
static int64_t vp_row(const void* v, int64_t row) {
  if (v != (const void*)&g_sv) return vp_drow(row);
  VP_ASSERT(row >= g_soff && row - g_soff < g_n, "only the requested coordinates are read");
  int64_t p = SPOS(row);
  VP_ASSUME(p >= 0 && p < (int64_t)g_src_n); /* precondition: they are readable */
  return p;
}
#ifndef VP_VALUE
#undef GEOARROW_COORD_VIEW_VALUE
#define GEOARROW_COORD_VIEW_VALUE(v, row, col) ((v)->values[(col)][vp_row((v), (row))])
#endif

static uint64_t now(void) {
  if (g_c == 0) return bits(g_dv.values[0][g_pos]);
  if (g_c == 1) return bits(g_dv.values[1][g_pos]);
  if (g_c == 2) return bits(g_dv.values[2][g_pos]);
  return bits(g_dv.values[3][g_pos]);
}
#define NOW now()
static _Bool g_nan; /* the source lacks the ordinate: NaN is due (cbmc does not keep NaN payloads) */
static _Bool right(void) {
  uint64_t x = now();
  return g_nan ? (x & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (x & 0xfffffffffffffULL) != 0 : x == g_want;
}
#define INV_C(M, i, done) \
  M((i) >= 0 && ((i) <= g_n || (i) == 0), "coordinates are counted") \
  M(g_in && (done) ? right() : NOW == g_old, "an element is written exactly if it is in the range, with the value asked for")
#define AT(i) (g_r - g_doff < (i))
#define INV_XY(M, i) INV_C(M, i, g_c < 2 && AT(i))
#define INV_C2(M, i) INV_C(M, i, g_c < 2 || (g_c == 2 && AT(i)))
#define INV_C3(M, i) INV_C(M, i, g_c < 3 || AT(i))
#define HAVOC_DST for (int vp_j = 0; vp_j < 4; vp_j++) if (vp_j < g_dv.n_values) __CPROVER_havoc_object(g_dv.values[vp_j]);
#define HAVOC_XY(i) HAVOC_DST
#define HAVOC_C2N(i) HAVOC_DST
#define HAVOC_C2(i) HAVOC_DST
#define HAVOC_C3N(i) HAVOC_DST
#define HAVOC_C3(i) HAVOC_DST
#define INV_C2N INV_C2
#define INV_C3N INV_C3
#define BEFORE_XY(i)
#define BEFORE_C2N(i)
#define BEFORE_C2(i)
#define BEFORE_C3N(i)
#define BEFORE_C3(i)
#define STEP_XY(M, i)
#define STEP_C2N(M, i)
#define STEP_C2(M, i)
#define STEP_C3N(M, i)
#define STEP_C3(M, i)

#include "geoarrow/geoarrow.h"

static int ordinates(int dim) { return dim == 1 ? 2 : dim == 4 ? 4 : 3; }
/* Which ordinate of `from` holds ordinate c of `to`. */
static int where(int from, int to, int c) {
  static const char* names[] = {"", "xy", "xyz", "xym", "xyzm"};
  for (int j = 0; j < 4; j++)
    if (j < ordinates(from) && names[from][j] == names[to][c]) return j;
  return -1;
}

static void copy1(const int ddim, const int64_t stride, const int sdim) {
  vp_init();
  g_width = stride;
  g_src_n = vp_size();
  VP_ASSUME(g_src_n <= VP_MAX_OBJ / 8);
  g_src = vp_alloc(8 * g_src_n);
  const int nd = ordinates(ddim);
  const int ns = ordinates(sdim);
  g_n = vp_i64();
  g_soff = vp_i64();
  g_doff = vp_i64();
  VP_ASSUME(g_n <= (int64_t)VP_MAX_OBJ && g_soff >= 0 && g_soff <= (int64_t)VP_MAX_OBJ && g_doff >= 0 && g_doff <= (int64_t)VP_MAX_OBJ);
  /* the destination: nd ordinates, every row up to g_doff + g_n, and more */
  size_t rows = g_rows = vp_size();
  VP_ASSUME(rows <= VP_MAX_OBJ / 32 && rows >= 1);
  VP_ASSUME(g_n <= 0 || (uint64_t)(g_doff + g_n) <= rows);
  g_dv.n_values = nd;
  g_dv.coords_stride = (int32_t)stride;
  g_dv.size_coords = vp_i64();
  g_dv.capacity_coords = vp_i64();
  double* all = stride == 1 ? 0 : vp_alloc(8 * rows * stride);
  for (int j = 0; j < 4; j++)
    g_dv.values[j] = j >= nd ? (double*)vp_poison : stride == 1 ? (double*)vp_alloc(8 * rows) : all + j;
  /* the source: any element positions inside its storage */
  g_sv.n_values = ns;
  g_sv.coords_stride = vp_i32();
  size_t o[4];
  for (int j = 0; j < 4; j++) {
    o[j] = vp_size();
    VP_ASSUME(o[j] <= VP_MAX_OBJ);
    g_sv.values[j] = j >= ns ? (double*)vp_poison : g_src;
  }
  g_r = vp_i64();
  g_c = vp_int();
  VP_ASSUME(g_r >= 0 && (uint64_t)g_r < rows && g_c >= 0 && g_c < nd);
  g_pos = vp_drow(g_r);
  g_old = NOW;
  g_in = g_n > 0 && g_r >= g_doff && g_r - g_doff < g_n;
  int from = where(sdim, ddim, g_c);
  g_nan = from < 0;
  if (g_in && from >= 0) g_want = bits(GEOARROW_COORD_VIEW_VALUE(&g_sv, g_soff + g_r - g_doff, from));
  GeoArrowCoordViewCopy(&g_sv, (enum GeoArrowDimensions)sdim, g_soff, &g_dv, (enum GeoArrowDimensions)ddim, g_doff, g_n);
  VP_ASSERT(g_in ? right() : NOW == g_old, "the range asked for is copied, and nothing else is written");
  if (g_in && g_c == nd - 1) VP_REACH("copied");
}
#ifndef VP_CASE
#define VP_CASE copy1(1, 1, 1)
#endif
void harness(void) { VP_CASE; }
#ifdef VP_VALUE
static void spaced(const int64_t w) {
  int64_t a = vp_i64(), b = vp_i64();
  VP_ASSUME(a >= 0 && a <= (int64_t)VP_MAX_OBJ && b >= 0 && b <= (int64_t)VP_MAX_OBJ);
  VP_ASSERT(a == b || a * w >= b * w + w || a * w + w <= b * w, "different rows do not overlap");
}
/* The access macro itself, and the fact about rows assumed above. */
void harness_value(void) {
  g_sv.values[0] = g_sv.values[1] = g_sv.values[2] = g_sv.values[3] = vp_alloc(8);
  g_sv.coords_stride = vp_i32();
  int col = vp_int();
  int64_t row = vp_i64();
  VP_ASSUME(col >= 0 && col < 4 && row >= 0 && row < 0x7fffffff);
  int64_t p = row * g_sv.coords_stride;
  VP_ASSUME(p == 0);
  VP_ASSERT(&GEOARROW_COORD_VIEW_VALUE(&g_sv, row, col) == g_sv.values[col] + p, "element (row, column) of a view");
  spaced(1);
  spaced(2);
  spaced(3);
  spaced(4);
  VP_REACH("value");
}
#endif
