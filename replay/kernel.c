/* C19: kernels over random features in several batches. */
#include "geom.h"
#include "nanoarrow/nanoarrow.h"
typedef struct { int null, any; int type, dims; double mn[2], mx[2]; } feat;
static void feature(vpr* r, feat* f, struct ArrowArray* a) {
  f->null = vpr_p(r, 25);
  f->any = 0;
  f->mn[0] = f->mn[1] = INFINITY;
  f->mx[0] = f->mx[1] = -INFINITY;
  if (f->null) { ArrowArrayAppendNull(a, 1); return; }
  vgeom g;
  vg_gen(r, &g, 1);
  f->type = g.nodes[0].geometry_type;
  f->dims = g.nodes[0].dimensions;
  for (int i = 0; i < g.n; i++) {
    struct GeoArrowGeometryNode* n = g.nodes + i;
    if (n->geometry_type > 2) continue;
    if (n->size || n->geometry_type == 1) f->any = 1; /* an empty point is a coordinate of NaNs */
    for (uint32_t k = 0; k < n->size; k++)
      for (int j = 0; j < 2; j++) {
        double d = vg_double(n, j, k);
        if (d < f->mn[j]) f->mn[j] = d;
        if (d > f->mx[j]) f->mx[j] = d;
      }
  }
  vbuf b = {0};
  vg_wkb(&g, 0, &b, 0);
  struct ArrowBufferView v;
  v.data.data = b.p;
  v.size_bytes = (int64_t)b.n;
  ArrowArrayAppendBytes(a, v);
  free(b.p);
  vg_free(&g);
}
int vp_case(vpr* r) {
  static const char* names[] = {"unique_geometry_types_agg", "box", "box_agg"};
  int which = vpr_in(r, 0, 2), large = vpr_in(r, 0, 1);
  struct GeoArrowKernel k;
  struct GeoArrowError e;
  struct ArrowSchema in, out;
  VPR_CHECK(GeoArrowSchemaInitExtension(&in, large ? GEOARROW_TYPE_LARGE_WKB : GEOARROW_TYPE_WKB) == 0, "schema");
  VPR_CHECK(GeoArrowKernelInit(&k, names[which], NULL) == 0, "init");
  VPR_CHECK(k.start(&k, &in, NULL, &out, &e) == 0, "start: %s", e.message);
  out.release(&out);
  in.release(&in);
  int seen[40] = {0};
  double mn[2] = {INFINITY, INFINITY}, mx[2] = {-INFINITY, -INFINITY};
  int batches = vpr_in(r, 0, 3);
  for (int b = 0; b < batches; b++) {
    struct ArrowArray a, o;
    feat f[48];
    int n = vpr_p(r, 80) ? vpr_in(r, 0, 5) : vpr_in(r, 0, 20), off = vpr_p(r, 30) ? vpr_in(r, 0, n) : 0, nulls = 0;
    ArrowArrayInitFromType(&a, large ? NANOARROW_TYPE_LARGE_BINARY : NANOARROW_TYPE_BINARY);
    ArrowArrayStartAppending(&a);
    for (int i = 0; i < n; i++) feature(r, f + i, &a);
    VPR_CHECK(ArrowArrayFinishBuildingDefault(&a, NULL) == 0, "building");
    a.offset = off;
    a.length = n - off;
    a.null_count = a.buffers[0] ? -1 : 0;
    for (int i = off; i < n; i++) {
      nulls += f[i].null;
      if (!f[i].null && f[i].any) seen[f[i].dims * 8 + f[i].type] = 1;
      for (int j = 0; j < 2; j++) { if (f[i].mn[j] < mn[j]) mn[j] = f[i].mn[j]; if (f[i].mx[j] > mx[j]) mx[j] = f[i].mx[j]; }
    }
    memset(&o, 0, sizeof o);
    int rc = k.push_batch(&k, &a, which == 1 ? &o : NULL, &e);
    VPR_CHECK(rc == 0, "push_batch: %d %s", rc, e.message);
    if (which == 1) {
      VPR_CHECK(o.length == n - off && o.null_count == nulls && o.n_children == 4 && o.offset == 0, "%ld boxes, %ld nulls for %d features, %d nulls", (long)o.length, (long)o.null_count, n - off, nulls);
      const uint8_t* bits = (const uint8_t*)o.buffers[0];
      VPR_CHECK(bits || !nulls, "no bitmap for %d nulls", nulls);
      for (int i = off; i < n; i++) {
        VPR_CHECK((bits ? ArrowBitGet(bits, i - off) : 1) == !f[i].null, "validity of feature %d", i);
        if (f[i].null) continue;
        for (int j = 0; j < 4; j++) {
          VPR_CHECK(o.children[j]->length == n - off, "length of bound %d", j);
          double got = ((const double*)o.children[j]->buffers[1])[i - off], want = j < 2 ? f[i].mn[j] : f[i].mx[j - 2];
          VPR_CHECK(got == want, "bound %d of feature %d: %g for %g", j, i, got, want);
        }
      }
      o.release(&o);
    }
    a.release(&a);
  }
  if (which != 1) {
    struct ArrowArray o;
    memset(&o, 0, sizeof o);
    VPR_CHECK(k.finish(&k, &o, &e) == 0, "finish");
    if (which == 0) {
      int m = 0;
      for (int i = 0; i < 40; i++)
        if (seen[i]) {
          VPR_CHECK(m < o.length, "type %d is missing", i);
          int32_t got = ((const int32_t*)o.buffers[1])[m++];
          VPR_CHECK(got == (i / 8 - 1) * 1000 + i % 8, "type %d is reported as %d", i, got);
        }
      VPR_CHECK(o.length == m && o.null_count == 0, "%ld types for %d", (long)o.length, m);
    } else {
      VPR_CHECK(o.length == 1 && o.null_count == 0 && o.buffers[0] == NULL, "one box");
      for (int j = 0; j < 4; j++) {
        double got = *(const double*)o.children[j]->buffers[1], want = j < 2 ? mn[j] : mx[j - 2];
        VPR_CHECK(o.children[j]->length == 1 && got == want, "bound %d: %g for %g", j, got, want);
      }
    }
    o.release(&o);
  } else VPR_CHECK(k.finish(&k, NULL, &e) == 0, "finish");
  k.release(&k);
  return 1;
}
