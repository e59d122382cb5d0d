/* C09, C10, C23: array views and array readers. VP_KIND is the geometry type (1 to 6), 990 a box. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
#ifndef VP_KIND
#define VP_KIND 1
#endif
#ifndef VP_NV
#define VP_NV 2
#endif
#ifndef VP_STRIDE
#define VP_STRIDE 1
#endif
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
int ArrowErrorSet(struct ArrowError* error, const char* fmt, ...) { return EINVAL; }

static struct GeoArrowArrayView AV;
static struct GeoArrowVisitor V;
/* --- the visit: a monitor that accepts exactly the events of the window --- */
static int64_t g_off, g_len;     /* the window */
static int64_t g_f, g_j, g_k;    /* feature, part, ring */
static int g_ph;                 /* where in the feature */
static int g_rc;                 /* the code of the first event that failed */
static int64_t g_L;              /* coordinates stored */
#define LEAF (VP_KIND <= 2 ? 2 : VP_KIND == 6 ? 4 : 3)
#define X (AV.offset[0] + g_off + g_f)
/* what the array says about the current feature, part and ring, read once where each loop comes by */
static _Bool g_null;
static int32_t g_x[2], g_y[2], g_z[2];
static _Bool is_null(void) { return g_null; }
static int64_t p0(void) { return g_x[0] + AV.offset[1]; }
static int64_t parts(void) { return (int64_t)g_x[1] - g_x[0]; }
#define Y (p0() + g_j)
static int64_t q0(void) { return g_y[0] + AV.offset[2]; }
static int64_t rings(void) { return (int64_t)g_y[1] - g_y[0]; }
#define Z (q0() + g_k)
/* valid Arrow: offsets do not decrease and end inside the child */
static void valid(int l, int64_t at, int32_t* o) {
  o[0] = AV.offsets[l][at];
  o[1] = AV.offsets[l][at + 1];
  VP_ASSUME(o[0] >= 0 && o[0] <= o[1] && o[1] <= AV.length[l + 1]);
}
static void valid_x(void) {
  g_null = AV.validity_bitmap != 0 && !((AV.validity_bitmap[X >> 3] >> (X & 7)) & 1);
  if (VP_KIND != 1 && VP_KIND != 990) valid(0, X, g_x);
}
static void valid_y(void) { valid(1, Y, g_y); }
static void valid_z(void) { valid(2, Z, g_z); }
static _Bool empty_box(void) { return AV.coords.values[0][X] > AV.coords.values[2][X] || AV.coords.values[1][X] > AV.coords.values[3][X]; }
static int event(void) {
  VP_ASSERT(g_rc == 0, "no event after one that failed");
  VP_ASSERT(g_f < g_len, "no event past the window");
  return g_rc = vp_int();
}
static int on_feat_start(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 0, "a feature starts between features");
  g_ph = 1;
  return event();
}
static int on_null(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 1 && is_null(), "null exactly where the bitmap says so");
  g_ph = 6;
  return event();
}
static int on_geom_start(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  VP_ASSERT(d == AV.schema_view.dimensions, "the array's dimensions");
  if (g_ph == 1) {
    VP_ASSERT(!is_null(), "null exactly where the bitmap says so");
    VP_ASSERT((int)t == (VP_KIND == 990 ? 3 : VP_KIND), "the array's type");
    g_ph = 2;
    g_j = 0;
  } else {
    VP_ASSERT(g_ph == 2 && (VP_KIND == 4 || VP_KIND == 5 || VP_KIND == 6) && (int)t == VP_KIND - 3, "a part of its type");
    VP_ASSERT(g_j < parts(), "as many parts as the offsets say");
    g_ph = 3;
    g_k = 0;
  }
  return event();
}
static int on_ring_start(struct GeoArrowVisitor* v) {
  if (VP_KIND == 990) { VP_ASSERT(g_ph == 2 && g_j == 0 && !empty_box(), "an empty box has no ring, others one"); g_ph = 3; }
  else if (VP_KIND == 3) { VP_ASSERT(g_ph == 2 && g_j < parts(), "as many rings as the offsets say"); g_ph = 3; }
  else { VP_ASSERT(VP_KIND == 6 && g_ph == 3 && g_k < rings(), "as many rings as the offsets say"); g_ph = 4; }
  return event();
}
static int on_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  VP_ASSERT(g_ph == LEAF, "coordinates of a point, linestring or ring");
  int64_t e, n;
#if VP_KIND == 990
  VP_ASSERT(c->n_coords == 5 && c->n_values == 2 && c->coords_stride == 1, "a closed ring");
  int w = vp_int();
  VP_ASSUME(w >= 0 && w < 5);
  double x = AV.coords.values[w == 1 || w == 2 ? 2 : 0][X], y = AV.coords.values[w == 2 || w == 3 ? 3 : 1][X];
  double gx = c->values[0][w], gy = c->values[1][w];
  VP_ASSERT((gx == x || (gx != gx && x != x)) && (gy == y || (gy != gy && y != y)), "the corners of the box");
#else
  if (VP_KIND == 1) { e = X; n = 1; }
  else if (VP_KIND == 2) { e = p0(); n = parts(); }
  else if (VP_KIND == 4) { e = p0() + g_j; n = 1; }
  else if (VP_KIND == 6) { e = g_z[0] + AV.offset[3]; n = (int64_t)g_z[1] - g_z[0]; }
  else { e = q0(); n = rings(); }
  VP_ASSERT(c->n_coords == n && c->n_values == VP_NV && c->coords_stride == VP_STRIDE, "as many coordinates as the offsets say");
  for (int j = 0; j < VP_NV; j++) VP_ASSERT(c->values[j] == AV.coords.values[j] + e * VP_STRIDE, "the coordinates of the element, offsets applied once");
  VP_ASSERT(e >= 0 && e + n <= g_L, "inside the coordinates");
#endif
  g_ph = 10 + LEAF;
  return event();
}
static int on_ring_end(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 10 + LEAF && (VP_KIND == 3 || VP_KIND == 6 || VP_KIND == 990), "a ring ends after its coordinates");
  if (VP_KIND != 6) { g_ph = 2; g_j++; }
  else { g_ph = 3; g_k++; }
  return event();
}
static int on_geom_end(struct GeoArrowVisitor* v) {
  if (VP_KIND <= 2) { VP_ASSERT(g_ph == 12, "a geometry ends after its coordinates"); g_ph = 6; }
  else if (g_ph == 2) {
    if (VP_KIND == 990) VP_ASSERT(g_j == (empty_box() ? 0 : 1), "an empty box has no ring");
    else VP_ASSERT(g_j == parts(), "as many parts as the offsets say");
    g_ph = 6;
  }
  else if (VP_KIND == 6) { VP_ASSERT(g_ph == 3 && g_k == rings(), "as many rings as the offsets say"); g_ph = 2; g_j++; }
  else { VP_ASSERT(g_ph == 13 && (VP_KIND == 4 || VP_KIND == 5), "a part ends after its coordinates"); g_ph = 2; g_j++; }
  return event();
}
static int on_feat_end(struct GeoArrowVisitor* v) {
  VP_ASSERT(g_ph == 6, "a feature ends after its geometry");
  int rc = event();
  g_ph = 0;
  g_f++;
  return rc;
}
/* loops: over features, parts and rings */
#define COORDS_OK(c) ((c).n_values == VP_NV && (c).coords_stride == VP_STRIDE)
#define HAVOC_COORDS(c) (c).n_coords = vp_i64(); for (int vp_q = 0; vp_q < 4; vp_q++) (c).values[vp_q] = (double*)vp_poison;
static int64_t g_it;
#define INV_FEAT(M, c, i) \
  M((i) >= 0 && (i) <= g_len && g_f == (i) && g_ph == 0 && g_rc == 0, "one feature after the other") \
  M(VP_KIND == 990 || COORDS_OK(c), "the layout of the coordinates")
#define HAVOC_FEAT(c, i) HAVOC_COORDS(c) g_f = (i);
#define BEFORE_FEAT(c, i) g_it = (i); if ((i) < g_len) { valid_x(); }
#define STEP_FEAT(M, c, i) M((i) == g_it + 1, "one feature after the other")
#define INV_FEATB(M, i, c, x, y) \
  M((c).n_coords == 5 && (c).n_values == 2 && (c).coords_stride == 1 && (c).values[0] == (x) && (c).values[1] == (y), "the ring's own coordinates") \
  M((i) >= 0 && (i) <= g_len && g_f == (i) && g_ph == 0 && g_rc == 0, "one feature after the other")
#define HAVOC_FEATB(i, c, x, y) (c).n_coords = 5; (c).n_values = 2; (c).coords_stride = 1; (c).values[0] = (x); (c).values[1] = (y); g_f = (i); g_j = vp_i64();
#define BEFORE_FEATB(i, c, x, y) BEFORE_FEAT(i, i)
#define STEP_FEATB(M, i, c, x, y) STEP_FEAT(M, i, i)
/* a point array keeps a cursor */
#define INV_FEATP(M, c, i) INV_FEAT(M, c, i) \
  M((VP_NV < 1 || CURSOR(c, 0, i)) && (VP_NV < 2 || CURSOR(c, 1, i)) && (VP_NV < 3 || CURSOR(c, 2, i)) && (VP_NV < 4 || CURSOR(c, 3, i)), "the cursor is inside the coordinates")
#define CURSOR(c, q, i) (VP_SAME((c).values[q], AV.coords.values[q]) && VP_OFF((c).values[q]) <= VP_OFF(AV.coords.values[q]) + (size_t)(AV.offset[0] + g_off + (i)) * (VP_STRIDE * 8))
#define HAVOC_FEATP(c, i) HAVOC_FEAT(c, i) \
  for (int vp_q = 0; vp_q < VP_NV; vp_q++) { int64_t vp_e = vp_i64(); VP_ASSUME(vp_e >= 0 && vp_e <= g_L); (c).values[vp_q] = AV.coords.values[vp_q] + vp_e * VP_STRIDE; }
#define BEFORE_FEATP(c, i) BEFORE_FEAT(c, i)
#define STEP_FEATP(M, c, i) STEP_FEAT(M, c, i)
#define INV_PART(M, c, j) \
  M((j) >= 0 && g_j == (j) && g_ph == 2 && g_rc == 0 && (j) <= parts(), "one part after the other") \
  M(COORDS_OK(c), "the layout of the coordinates")
#define HAVOC_PART(c, j) HAVOC_COORDS(c) g_j = (j);
#define BEFORE_PART(c, j) if (VP_KIND != 4 && (j) < parts()) { valid_y(); }
#define STEP_PART(M, c, j) M(g_j == (j), "one part after the other")
#define INV_RING(M, c, k) \
  M((k) >= 0 && g_k == (k) && g_ph == 3 && g_rc == 0 && (k) <= rings(), "one ring after the other") \
  M(COORDS_OK(c), "the layout of the coordinates")
#define HAVOC_RING(c, k) HAVOC_COORDS(c) g_k = (k);
#define BEFORE_RING(c, k) if ((k) < rings()) { valid_z(); }
#define STEP_RING(M, c, k) M(g_k == (k), "one ring after the other")

#include "geoarrow/array_view.c"

static int64_t size(void) {
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= (int64_t)(VP_MAX_OBJ >> 6));
  return n;
}
static void visitor(void) {
  V.feat_start = &on_feat_start;
  V.null_feat = &on_null;
  V.geom_start = &on_geom_start;
  V.ring_start = &on_ring_start;
  V.coords = &on_coords;
  V.ring_end = &on_ring_end;
  V.geom_end = &on_geom_end;
  V.feat_end = &on_feat_end;
}
void harness_visit(void) {
  vp_init();
  visitor();
  const int levels = VP_KIND == 1 || VP_KIND == 990 ? 0 : VP_KIND == 2 || VP_KIND == 4 ? 1 : VP_KIND == 6 ? 3 : 2;
  AV.schema_view.geometry_type = VP_KIND;
  AV.schema_view.dimensions = VP_KIND == 990 ? 1 : vp_int();
  AV.n_offsets = levels;
  for (int i = 0; i <= levels; i++) {
    AV.offset[i] = size();
    AV.length[i] = size();
    if (i < levels) {
      /* exactly the offsets of the array */
      int32_t* o = malloc((AV.offset[i] + AV.length[i] + 1) * sizeof(int32_t));
      VP_ASSUME(o != 0);
      AV.offsets[i] = o;
    }
  }
  if (vp_bool()) AV.validity_bitmap = vp_alloc((AV.offset[0] + AV.length[0] + 7) >> 3);
  g_L = AV.offset[levels] + AV.length[levels];
  AV.coords.n_coords = vp_i64();
  AV.coords.n_values = VP_KIND == 990 ? 4 : VP_NV;
  AV.coords.coords_stride = VP_STRIDE;
  if (VP_STRIDE > 1) {
    double* m = vp_alloc((size_t)g_L * VP_STRIDE * 8 + 8 * VP_STRIDE);
    for (int j = 0; j < VP_NV; j++) AV.coords.values[j] = m + j;
  } else for (int j = 0; j < (VP_KIND == 990 ? 4 : VP_NV); j++) {
    double* m = malloc(g_L * sizeof(double));
    VP_ASSUME(m != 0);
    AV.coords.values[j] = m;
  }
  g_off = vp_i64();
  g_len = vp_i64();
  VP_ASSUME(g_off >= 0 && g_len >= 0 && g_off <= AV.length[0] && g_len <= AV.length[0] - g_off);
  int rc = GeoArrowArrayViewVisitNative(&AV, g_off, g_len, &V);
  VP_ASSERT(rc == g_rc, "the code of the event that failed is returned");
  if (rc == 0) {
    VP_ASSERT(g_f == g_len && g_ph == 0, "every feature of the window is visited");
    VP_REACH("window");
  }
}

/* --- C10: attaching an array --- */
#ifndef VP_INTER
#define VP_INTER 0
#endif
#ifndef VP_TYPE
#define VP_TYPE GEOARROW_TYPE_POINT
#endif
static struct ArrowArray A[5], C[8];
static const void** pointers(int64_t n) {
  const void** p = malloc(n * sizeof(void*));
  VP_ASSUME(p != 0);
  return p;
}
static void any_array(struct ArrowArray* a, int64_t max_children) {
  a->length = size();
  a->offset = size();
  a->n_buffers = vp_i64();
  a->n_children = vp_i64();
  VP_ASSUME(a->n_buffers >= 0 && a->n_buffers <= 8 && a->n_children >= 0 && a->n_children <= max_children);
  a->buffers = pointers(a->n_buffers);
  a->children = (struct ArrowArray**)pointers(a->n_children);
}
void harness_attach(void) {
  vp_init();
  const _Bool box = VP_KIND == 990, serial = VP_KIND == 0;
  const int levels = box || VP_KIND == 1 ? 0 : serial || VP_KIND == 2 || VP_KIND == 4 ? 1 : VP_KIND == 6 ? 3 : 2;
  const int nv = box ? 2 * VP_NV : VP_NV;
  AV.schema_view.type = VP_TYPE;
  AV.schema_view.geometry_type = VP_KIND;
  AV.schema_view.coord_type = serial ? GEOARROW_COORD_TYPE_UNKNOWN : VP_INTER ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  AV.n_offsets = levels;
  AV.coords.n_values = nv;
  AV.coords.coords_stride = VP_INTER ? nv : 1;
  for (int l = 0; l <= levels; l++) {
    any_array(&A[l], 8);
    if (l < levels && !serial) {
      if (A[l].n_children > 0) A[l].children[0] = &A[l + 1];
      if (A[l].n_buffers > 1) {
        int32_t* o = malloc((A[l].offset + A[l].length + 1) * sizeof(int32_t));
        VP_ASSUME(o != 0);
        /* an empty array may come without offsets */
        if (A[l].length == 0 && vp_bool()) o = 0;
        else VP_ASSUME(o[A[l].offset] >= 0 && o[A[l].offset + A[l].length] >= 0);
        A[l].buffers[1] = o;
      }
    }
  }
  struct ArrowArray* last = &A[levels];
  for (int j = 0; j < 8; j++) {
    any_array(&C[j], 0);
    if (j < last->n_children) last->children[j] = &C[j];
  }
  int rc = GeoArrowArrayViewSetArray(&AV, &A[0], vp_bool() ? 0 : (struct GeoArrowError*)vp_poison);
  /* the layout the type prescribes */
  _Bool ok = A[0].n_buffers >= 1;
  if (serial) ok = A[0].n_buffers == 3;
  else {
    for (int l = 0; l < levels; l++) ok = ok && A[l].n_buffers == 2 && A[l].n_children == 1;
    if (ok && last->n_children != (VP_INTER ? 1 : nv)) ok = 0;
    for (int j = 0; j < nv; j++) if (ok && (!VP_INTER || j == 0) && C[j].n_buffers != 2) ok = 0;
  }
  VP_ASSERT((rc == 0) == ok, "accepted exactly if the layout is that of the type");
  VP_ASSERT(rc == 0 || rc == EINVAL, "refused with EINVAL");
  if (rc) { VP_REACH("refused"); return; }
  VP_ASSERT(AV.validity_bitmap == (const uint8_t*)A[0].buffers[0], "the array's validity");
  for (int l = 0; l <= (serial ? 0 : levels); l++) VP_ASSERT(AV.offset[l] == A[l].offset && AV.length[l] == A[l].length, "offset and length of each level");
  if (serial) {
    VP_ASSERT(AV.offsets[0] == (const int32_t*)A[0].buffers[1] && AV.data == (const uint8_t*)A[0].buffers[2], "offsets and data");
  } else {
    for (int l = 0; l < levels; l++) {
      if (A[l].length > 0) {
        const int32_t* o = (const int32_t*)A[l].buffers[1];
        VP_ASSERT(AV.offsets[l] == o && AV.first_offset[l] == o[A[l].offset] && AV.last_offset[l] == o[A[l].offset + A[l].length], "the offsets of each level");
      } else VP_ASSERT(AV.offsets[l][0] == 0 && AV.first_offset[l] == 0 && AV.last_offset[l] == 0, "an empty level has one offset, zero");
    }
    VP_ASSERT(AV.coords.n_coords == (levels == 0 ? A[0].length : (int64_t)AV.last_offset[levels - 1] - AV.first_offset[levels - 1]), "the number of coordinates");
    for (int j = 0; j < nv; j++) {
      const struct ArrowArray* c = VP_INTER ? &C[0] : &C[j];
      VP_ASSERT(AV.coords.values[j] == (const double*)c->buffers[1] + c->offset + (VP_INTER ? j : 0), "the coordinates, child offsets applied once");
    }
  }
  VP_REACH("accepted");
}
/* the layout that a type prescribes */
static struct GeoArrowSchemaView g_sv;
GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* s, enum GeoArrowType type) {
  if (vp_bool()) return EINVAL;
  *s = g_sv;
  return 0;
}
GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* s, const struct ArrowSchema* schema, struct GeoArrowError* error) {
  if (vp_bool()) return EINVAL;
  *s = g_sv;
  return 0;
}
void harness_view_init(void) {
  vp_init();
  int g = g_sv.geometry_type = vp_int(), d = g_sv.dimensions = vp_int(), c = g_sv.coord_type = vp_int();
  _Bool serial = g == 0;
  VP_ASSUME((g >= 0 && g <= 6) || g == 990);
  VP_ASSUME(serial ? d == 0 && c == 0 : d >= 1 && d <= 4 && c >= 1 && c <= 2);
  int rc = vp_bool() ? GeoArrowArrayViewInitFromType(&AV, (enum GeoArrowType)vp_int()) : GeoArrowArrayViewInitFromSchema(&AV, 0, 0);
  if (rc) return;
  VP_ASSERT(AV.n_offsets == (g == 990 || g == 1 ? 0 : g == 0 || g == 2 || g == 4 ? 1 : g == 6 ? 3 : 2), "the nesting of the type");
  int nv = serial ? 0 : (d == 1 ? 2 : d == 4 ? 4 : 3) * (g == 990 ? 2 : 1);
  VP_ASSERT(AV.coords.n_values == nv && AV.coords.coords_stride == (serial ? 0 : c == 1 ? 1 : nv), "the coordinates of the type");
  VP_ASSERT(AV.validity_bitmap == 0 && AV.data == 0 && AV.coords.n_coords == 0, "nothing is attached");
  for (int l = 0; l < 4; l++) VP_ASSERT(AV.length[l] == 0 && AV.offset[l] == 0, "nothing is attached");
  VP_REACH("layout");
}
