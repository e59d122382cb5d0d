/* C19: the kernels that aggregate. */
#include "vp.h"
#include <math.h>
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }

/* A ghost of the one validity bitmap: how many bits are zero, and one witness bit. */
static int64_t g_zeros, g_bw;
static int g_bwval;
static struct ArrowBitmap* g_bitmap;
static ArrowErrorCode vp_bitmap_append(struct ArrowBitmap* b, uint8_t v, int64_t n) {
  VP_ASSERT(b == g_bitmap && n >= 0, "the validity bitmap");
  if (vp_bool()) return ENOMEM;
  if (!b->buffer.data) b->buffer.data = vp_alloc(1);
  if (g_bw >= b->size_bits && g_bw < b->size_bits + n) g_bwval = v != 0;
  if (!v) g_zeros += n;
  b->size_bits += n;
  return 0;
}
static int g_resets;
static void vp_bitmap_reset(struct ArrowBitmap* b) { VP_ASSERT(b == g_bitmap, "the validity bitmap"); b->buffer.data = 0; b->size_bits = 0; g_resets++; }
/* The four value buffers: how many values, and the last one. */
static double g_val[4];
static int g_app[4];
static int64_t g_ext[4];
static int which(struct ArrowBuffer* b);
static ArrowErrorCode vp_append_double(struct ArrowBuffer* b, double d) {
  int k = which(b);
  if (vp_bool()) return ENOMEM;
  g_app[k]++;
  g_val[k] = d;
  b->size_bytes += 8;
  return 0;
}
static struct ArrowBuffer* vp_array_buffer(struct ArrowArray* a, int64_t i);
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n);
static void vp_array_move(struct ArrowArray* src, struct ArrowArray* dst) { *dst = *src; src->release = 0; }
static ArrowErrorCode vp_array_box(struct ArrowArray* a);
static struct GeoArrowVisitorKernelPrivate* g_p;

/* the loop over coordinates */
static const struct GeoArrowCoordView* g_cv;
static double g_v;          /* the value of the iteration */
static double g_min, g_max; /* before it */
static double g_omin[2], g_omax[2];
static int64_t g_cw, g_it; /* a witness coordinate */
#define NOT(c) (!(c)) /* NaN compares false */
#define INV_BOX(M, pd, dim, i) \
  M((i) >= 0 && (i) <= g_cv->n_coords, "coordinates one after the other") \
  M(NOT(g_cw < (i) && g_w[dim] < (pd)->box2d_private.min_values[dim]) && NOT(g_cw < (i) && g_w[dim] > (pd)->box2d_private.max_values[dim]), "the box contains what was seen") \
  M(NOT((pd)->box2d_private.min_values[dim] > g_omin[dim]) && NOT((pd)->box2d_private.max_values[dim] < g_omax[dim]), "the box only grows") \
  M((dim) == 0 || (NOT(g_w[0] < (pd)->box2d_private.min_values[0]) && NOT(g_w[0] > (pd)->box2d_private.max_values[0])), "in both dimensions") \
  M((pd)->box2d_private.min_values[dim] == (pd)->box2d_private.min_values[dim] && (pd)->box2d_private.max_values[dim] == (pd)->box2d_private.max_values[dim], "no bound is NaN")
#define HAVOC_BOX(pd, dim, i) vp_modifies(&(pd)->box2d_private.min_values[dim], 8); vp_modifies(&(pd)->box2d_private.max_values[dim], 8); \
  (pd)->box2d_private.min_values[dim] = vp_double(); (pd)->box2d_private.max_values[dim] = vp_double();
#define BEFORE_BOX(pd, dim, i) g_min = (pd)->box2d_private.min_values[dim]; g_max = (pd)->box2d_private.max_values[dim]; g_it = (i); \
  if (g_it < g_cv->n_coords) { vp_coord(g_it, dim); }
#define STEP_BOX(M, pd, dim, i) \
  M((i) == g_it + 1, "coordinates one after the other") \
  M((pd)->box2d_private.min_values[dim] == (g_v < g_min ? g_v : g_min), "the minimum is that of the value and what was seen") \
  M((pd)->box2d_private.max_values[dim] == (g_v > g_max ? g_v : g_max), "the maximum is that of the value and what was seen")
static double g_w[2];
static void vp_coord(int64_t i, int dim) {
  const double* p = g_cv->values[dim] + i * g_cv->coords_stride;
  g_v = *p;
  if (i == g_cw) VP_ASSUME(g_v == g_w[dim] || (g_v != g_v && g_w[dim] != g_w[dim]));
}
/* the loop over features */
static int64_t g_visits, g_ends;
static int g_rc, g_erc, g_frc, g_fins;
static int64_t g_len;
#define INV_FEAT(M, i) M((i) >= 0 && (i) <= g_len && g_visits == (i) && g_rc == 0 && g_erc == 0, "every element is visited once, in order")
#define HAVOC_FEAT(i) g_visits = (i);
#define BEFORE_FEAT(i) g_ends = 0;
#define STEP_FEAT(M, i) M((g_ends == 1) == (g_again == 1), "a feature that was cut short is ended")
static int g_again;
static GeoArrowErrorCode vp_visit(const struct GeoArrowArrayReader* reader, int64_t offset, int64_t length, struct GeoArrowVisitor* v);
static GeoArrowErrorCode vp_set_array(struct GeoArrowArrayReader* reader, const struct ArrowArray* array, struct GeoArrowError* error);

/* the loops over the types: g_cnt[i] is how many of the first i types were seen */
static uint64_t g_mask;
static int g_cnt[41], g_tw;
static int32_t* g_codes;
static int64_t code(int i) { return (i / 8 - 1) * 1000 + i % 8; }
#define INV_COUNT(M, n, i) M((i) >= 0 && (i) <= 40 && (n) == g_cnt[(i)], "every type seen counts")
#define HAVOC_COUNT(n, i)
#define BEFORE_COUNT(n, i) g_it = (i);
#define STEP_COUNT(M, n, i) M((i) == g_it + 1, "one type after the other")
#define INV_CODES(M, n, i) \
  M((i) >= 0 && (i) <= 40 && (n) == g_cnt[(i)], "every type seen has a place") \
  M((i) <= g_tw || !(g_mask >> g_tw & 1) || g_codes[g_cnt[g_tw]] == code(g_tw), "the codes of the types seen, in order")
#define HAVOC_CODES(n, i) vp_modifies(g_codes, 160); g_codes[g_cnt[g_tw]] = vp_i32();
#define BEFORE_CODES(n, i) g_it = (i);
#define STEP_CODES(M, n, i) M((i) == g_it + 1, "one type after the other")

#include "geoarrow/kernel.c"

static struct GeoArrowVisitorKernelPrivate P, O;
static struct GeoArrowVisitor V;
static struct GeoArrowKernel K;
static struct GeoArrowError E;
static int which(struct ArrowBuffer* b) {
  int k = b == &P.box2d_private.values[0] ? 0 : b == &P.box2d_private.values[1] ? 1 : b == &P.box2d_private.values[2] ? 2 : 3;
  VP_ASSERT(b == &P.box2d_private.values[k], "one of the four buffers");
  return k;
}
static void start(void) {
  vp_init();
  V.private_data = &P;
  K.private_data = &P;
  g_p = &P;
  g_bitmap = &P.box2d_private.validity;
}

/* --- unique types --- */
void harness_types(void) {
  start();
  uint64_t mask = P.geometry_types_private.geometry_types_mask = vp_u64();
  VP_ASSERT(feat_start_geometry_types(&V) == 0 && P.geometry_types_private.geometry_types_mask == mask, "a new feature adds nothing");
  int t = vp_int(), d = vp_int();
  VP_ASSUME(t >= 1 && t <= 7 && d >= 0 && d <= 4);
  VP_ASSERT(geom_start_geometry_types(&V, t, d) == 0 && P.geometry_types_private.geometry_types_mask == mask, "a geometry without coordinates adds nothing");
  int t2 = vp_int(), d2 = vp_int();
  VP_ASSUME(t2 >= 1 && t2 <= 7 && d2 >= 0 && d2 <= 4);
  if (vp_bool()) VP_ASSERT(geom_start_geometry_types(&V, t2, d2) == 0, "nested");
  struct GeoArrowCoordView cv;
  cv.n_coords = vp_i64();
  VP_ASSUME(cv.n_coords >= 0);
  int rc = coords_geometry_types(&V, &cv);
  VP_ASSERT(rc == (cv.n_coords ? EAGAIN : 0), "the rest of the feature is skipped");
  VP_ASSERT(P.geometry_types_private.geometry_types_mask == (cv.n_coords ? mask | (uint64_t)1 << (d * 8 + t) : mask), "exactly the feature's own type and dimensions are added");
  if (cv.n_coords) VP_REACH("coordinates");
}
static struct ArrowBuffer g_data;
static int64_t g_reserved;
static int g_released, g_fin, g_init;
static struct ArrowArray* g_out;
static void vp_release(struct ArrowArray* a) { VP_ASSERT(a->release != 0, "released once"); a->release = 0; g_released++; }
ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* a, enum ArrowType t) {
  VP_ASSERT(t == NANOARROW_TYPE_INT32, "the type of the result");
  a->release = 0;
  if (vp_bool()) return ENOMEM;
  a->release = &vp_release;
  g_init++;
  return 0;
}
static struct ArrowBuffer* vp_array_buffer(struct ArrowArray* a, int64_t i) { VP_ASSERT(i == 1, "the data buffer"); return &g_data; }
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n) {
  VP_ASSERT(b == &g_data && n >= 0 && n <= 160, "room for the types");
  if (vp_bool()) return ENOMEM;
  g_reserved = n;
  g_codes = (int32_t*)(b->data = vp_alloc(160)); /* as much as the last type may need; the exact size is checked by count */
  return 0;
}
static int g_fin_rc;
ArrowErrorCode ArrowArrayFinishBuildingDefault(struct ArrowArray* a, struct ArrowError* e) {
  VP_ASSERT(a->release != 0, "a live array");
  g_fin++;
  return g_fin_rc;
}
void harness_types_finish(void) {
  start();
  uint64_t mask = P.geometry_types_private.geometry_types_mask = vp_u64();
  VP_ASSUME(mask < (uint64_t)1 << 40);
  g_mask = mask;
  for (int i = 0; i < 40; i++) g_cnt[i + 1] = g_cnt[i] + (int)(mask >> i & 1);
  g_tw = vp_int();
  VP_ASSUME(g_tw >= 0 && g_tw < 40);
  struct ArrowArray out;
  out.release = 0;
  g_fin_rc = vp_int();
  int rc = kernel_finish_unique_geometry_types_agg(&K, &out, &E);
  VP_ASSERT(rc == 0 ? out.release != 0 && g_released == 0 : g_released == g_init, "the result is handed over, or released");
  if (rc == 0) {
    if (mask >> g_tw & 1) VP_ASSERT(g_codes[g_cnt[g_tw]] == code(g_tw), "the code of every type seen, in order");
    VP_ASSERT(out.length == g_cnt[40] && out.null_count == 0, "nothing else");
    VP_ASSERT(g_reserved == 4 * g_cnt[40], "as many values as types");
    VP_REACH("types");
  }
}

/* --- boxes --- */
static void box(void) {
  start();
  for (int k = 0; k < 2; k++) {
    P.box2d_private.min_values[k] = vp_double();
    P.box2d_private.max_values[k] = vp_double();
    VP_ASSUME(P.box2d_private.min_values[k] == P.box2d_private.min_values[k] && P.box2d_private.max_values[k] == P.box2d_private.max_values[k]);
  }
}
void harness_box_coords(void) {
  box();
  static struct GeoArrowCoordView cv;
  cv.n_coords = vp_i64();
  VP_ASSUME(cv.n_coords >= 0 && cv.n_coords <= (int64_t)(VP_MAX_OBJ >> 5));
  cv.coords_stride = VP_STRIDE;
  double* mem[2];
#if VP_STRIDE == 1
  mem[0] = malloc(cv.n_coords * sizeof(double)); mem[1] = malloc(cv.n_coords * sizeof(double));
  VP_ASSUME(mem[0] && mem[1]);
#else
  mem[0] = vp_alloc((size_t)cv.n_coords * VP_STRIDE * 8);

  mem[1] = mem[0] + (cv.n_coords > 0);
#endif
  cv.values[0] = mem[0];
  cv.values[1] = mem[1];
  g_cv = &cv;
  for (int k = 0; k < 2; k++) { g_omin[k] = P.box2d_private.min_values[k]; g_omax[k] = P.box2d_private.max_values[k]; }
  g_cw = vp_i64();
  VP_ASSUME(g_cw >= 0);
  if (g_cw < cv.n_coords) { g_w[0] = cv.values[0][g_cw * VP_STRIDE]; g_w[1] = cv.values[1][g_cw * VP_STRIDE]; }
  else { g_w[0] = g_w[1] = NAN; }
  int rc = coords_box(&V, &cv);
  VP_ASSERT(rc == 0, "never fails");
  for (int k = 0; k < 2; k++)
    VP_ASSERT(NOT(g_w[k] < P.box2d_private.min_values[k]) && NOT(g_w[k] > P.box2d_private.max_values[k]), "the box contains every coordinate");
  VP_REACH("coordinates");
}
#define AGREE(n) (P.box2d_private.validity.buffer.data ? P.box2d_private.validity.size_bits == (n) && g_zeros == P.box2d_private.null_count : P.box2d_private.null_count == 0 && P.box2d_private.validity.size_bits == 0 && g_zeros == 0)
static int64_t features(void) {
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= (int64_t)(VP_MAX_OBJ >> 3));
  for (int k = 0; k < 4; k++) P.box2d_private.values[k].size_bytes = 8 * n;
  P.box2d_private.null_count = vp_i64();
  g_zeros = P.box2d_private.null_count;
  P.box2d_private.validity.size_bits = vp_i64();
  P.box2d_private.validity.buffer.data = vp_bool() ? vp_alloc(1) : 0;
  VP_ASSUME(P.box2d_private.null_count >= 0 && P.box2d_private.null_count <= n && AGREE(n));
  g_bw = vp_i64();
  g_bwval = vp_bool();
  return n;
}
void harness_box_feat(void) {
  box();
  int64_t n = features();
  _Bool had = P.box2d_private.validity.buffer.data != 0;
  int old = g_bwval;
  int64_t nulls = P.box2d_private.null_count;
  VP_ASSERT(feat_start_box(&V) == 0, "never fails");
  for (int k = 0; k < 2; k++) VP_ASSERT(P.box2d_private.min_values[k] == INFINITY && P.box2d_private.max_values[k] == -INFINITY, "a feature starts with the empty box");
  int null = vp_bool();
  if (null && null_feat_box(&V)) return;
  double mn[2], mx[2];
  for (int k = 0; k < 2; k++) { P.box2d_private.min_values[k] = mn[k] = vp_double(); P.box2d_private.max_values[k] = mx[k] = vp_double(); }
  int rc = feat_end_box(&V);
  if (rc) return;
  for (int k = 0; k < 4; k++) {
    VP_ASSERT(g_app[k] == 1 && P.box2d_private.values[k].size_bytes == 8 * (n + 1), "one box for the feature");
    double want = k < 2 ? mn[k] : mx[k - 2];
    VP_ASSERT(g_val[k] == want || (g_val[k] != g_val[k] && want != want), "its bounds, the minima first");
  }
  VP_ASSERT(AGREE(n + 1) && P.box2d_private.null_count == nulls + null, "length, validity and null count agree");
  if (P.box2d_private.validity.buffer.data) {
    if (g_bw == n) VP_ASSERT(g_bwval == !null, "the feature's own bit");
    if (g_bw >= 0 && g_bw < n) VP_ASSERT(g_bwval == (had ? old : 1), "the bits of earlier features");
    VP_REACH("bitmap");
  } else VP_REACH("no bitmap");
}
static struct ArrowArray g_child[4];
static struct ArrowArray* g_children[4];
static int g_setb[4];
static struct ArrowBitmap g_setv;
static int g_setvn;
static ArrowErrorCode vp_array_box(struct ArrowArray* a) {
  a->release = &vp_release;
  g_init++;
  for (int k = 0; k < 4; k++) g_children[k] = &g_child[k];
  a->children = g_children;
  a->n_children = 4;
  return vp_bool() ? ENOMEM : 0;
}
ArrowErrorCode ArrowArraySetBuffer(struct ArrowArray* a, int64_t i, struct ArrowBuffer* b) {
  int k = which(b);
  VP_ASSERT(a == &g_child[k] && i == 1, "each bound has its own child");
  g_setb[k]++;
  b->data = 0;
  b->size_bytes = b->capacity_bytes = 0;
  return 0;
}
void ArrowArraySetValidityBitmap(struct ArrowArray* a, struct ArrowBitmap* b) {
  VP_ASSERT(b == g_bitmap, "the validity bitmap");
  g_setv = *b;
  g_setvn++;
  b->buffer.data = 0;
  b->size_bits = 0;
}
void harness_box_finish(void) {
  box();
  int64_t n = features();
  O = P;
  struct ArrowArray out;
  out.release = 0;
  g_fin_rc = vp_int();
  int rc = VP_AGG ? kernel_finish_box_agg(&K, &out, &E) : finish_push_batch_box(&P, &out, &E);
  VP_ASSERT(rc == 0 ? out.release != 0 && g_released == 0 : g_released == g_init, "the result is handed over, or released");
  if (rc == 0) {
    VP_ASSERT(out.length == n + VP_AGG, "one element per feature");
    for (int k = 0; k < 4; k++) {
      VP_ASSERT(g_setb[k] == 1 && g_child[k].length == n + VP_AGG, "all four bounds");
      if (VP_AGG) VP_ASSERT(g_app[k] == 1 && g_val[k] == (k < 2 ? P.box2d_private.min_values[k] : P.box2d_private.max_values[k - 2]), "the bounds of all features");
    }
    VP_ASSERT(out.null_count == O.box2d_private.null_count, "the null count");
    VP_ASSERT(g_setvn == (O.box2d_private.null_count > 0), "a bitmap if there are nulls");
    if (g_setvn) VP_ASSERT(g_setv.buffer.data == O.box2d_private.validity.buffer.data && g_setv.size_bits == O.box2d_private.validity.size_bits, "the features' bitmap");
    VP_ASSERT(P.box2d_private.null_count == 0 && P.box2d_private.validity.buffer.data == 0 && P.box2d_private.validity.size_bits == 0, "the next batch starts from an empty state");
    VP_REACH("boxes");
  }
}
/* --- batches --- */
static struct ArrowArray A, OUT;
static int g_setn;
static GeoArrowErrorCode vp_set_array(struct GeoArrowArrayReader* reader, const struct ArrowArray* array, struct GeoArrowError* error) {
  VP_ASSERT(reader == &P.reader && array == &A, "the batch");
  if (vp_bool()) return EINVAL;
  g_setn++;
  return 0;
}
static GeoArrowErrorCode vp_visit(const struct GeoArrowArrayReader* reader, int64_t offset, int64_t length, struct GeoArrowVisitor* v) {
  VP_ASSERT(reader == &P.reader && v == &P.v && g_setn == 1 && v->error == &E, "the batch is visited");
  VP_ASSERT(VP_BY ? offset == g_visits && length == 1 : offset == 0 && length == g_len, "every element once, in order");
  VP_ASSERT(g_rc == 0 && g_erc == 0, "no visit after an error");
  g_visits++;
  int rc = vp_int();
  g_again = VP_BY && rc == EAGAIN;
  if (!g_again) g_rc = rc;
  return rc;
}
static int vp_feat_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &P.v && g_again, "only a feature that was cut short is ended"); g_ends++; return g_erc = vp_int(); }
static int vp_finish(struct GeoArrowVisitorKernelPrivate* p, struct ArrowArray* out, struct GeoArrowError* error) {
  VP_ASSERT(p == &P && out == &OUT && g_rc == 0 && g_erc == 0 && g_visits == (VP_BY ? g_len : 1), "the result follows the whole batch");
  g_fins++;
  return g_frc = vp_int();
}
void harness_batch(void) {
  start();
  g_len = A.length = vp_i64();
  VP_ASSUME(g_len >= 0);
  P.v.feat_end = &vp_feat_end;
  P.finish_push_batch = &vp_finish;
  int rc = VP_BY ? kernel_push_batch_by_feature(&K, &A, &OUT, &E) : kernel_push_batch(&K, &A, &OUT, &E);
  if (g_setn) VP_ASSERT(rc == (g_rc ? g_rc : g_erc ? g_erc : g_frc) , "the first error is returned");
  else VP_ASSERT(rc != 0 && g_visits == 0, "a batch that does not fit is refused");
  if (rc == 0) { VP_ASSERT(g_fins == 1, "a result per batch"); VP_REACH("batch"); }
}
