/* C20: length, validity and null count of the arrays of every writer, batch after batch. */
#include "geom.h"
#include "nanoarrow/nanoarrow.h"
int vp_case(vpr* r) {
  int which = vpr_in(r, 0, 2), kind = vpr_in(r, 1, 6), dims = vpr_in(r, 1, 4);
  struct GeoArrowWKBWriter wkb;
  struct GeoArrowWKTWriter wkt;
  struct GeoArrowNativeWriter nat;
  struct GeoArrowVisitor v;
  struct GeoArrowError err;
  err.message[0] = 0;
  int rc = which == 0 ? GeoArrowWKBWriterInit(&wkb) : which == 1 ? GeoArrowWKTWriterInit(&wkt)
         : GeoArrowNativeWriterInit(&nat, GeoArrowMakeType((enum GeoArrowGeometryType)kind, (enum GeoArrowDimensions)dims, vpr_p(r, 50) ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE));
  VPR_CHECK(rc == 0, "init");
  v.error = &err;
  if (which == 0) GeoArrowWKBWriterInitVisitor(&wkb, &v);
  else if (which == 1) GeoArrowWKTWriterInitVisitor(&wkt, &v);
  else GeoArrowNativeWriterInitVisitor(&nat, &v);
  int batches = vpr_in(r, 1, 4), nulls_pc = vpr_in(r, 0, 2) * 30;
  for (int b = 0; b < batches; b++) {
    int n = vpr_p(r, 10) ? (int)vpr_in(r, 0, 600) : (int)vpr_in(r, 0, 20), nulls = 0, dead = 0;
    uint8_t* is = (uint8_t*)calloc(n + 1, 1);
    for (int i = 0; i < n; i++) {
      vgeom g;
      g.n = 0;
      is[i] = vpr_p(r, nulls_pc);
      nulls += is[i];
      if (n > 40) { g.n = 1; memset(g.nodes, 0, sizeof *g.nodes); g.own[0] = NULL; g.nodes[0].geometry_type = kind; g.nodes[0].dimensions = dims; }
      else vg_tree(r, &g, which < 2 ? vpr_in(r, 1, 7) : kind, dims, 0, 0);
      if (which != 1 && vpr_p(r, 40)) {
        if (is[i]) rc = which == 0 ? GeoArrowWKBWriterAppendNull(&wkb) : GeoArrowNativeWriterAppendNull(&nat);
        else rc = which == 0 ? GeoArrowWKBWriterAppend(&wkb, vg_view(&g)) : GeoArrowNativeWriterAppend(&nat, vg_view(&g), &err);
      } else {
        int q = 0;
        rc = v.feat_start(&v);
        if (!rc && is[i]) rc = v.null_feat(&v);
        if (!rc && (!is[i] || vpr_p(r, 10)) && !(is[i] && which == 0)) rc = vg_visit(r, &v, &g, 0, 0, &q);
        if (!rc && is[i] && which != 2 && vpr_p(r, 10)) rc = v.null_feat(&v);
        if (!rc) rc = v.feat_end(&v);
      }
      VPR_CHECK(rc == 0, "feature %d: %d %s", i, rc, err.message);
      vg_free(&g);
    }
    struct ArrowArray a;
    a.release = NULL;
    rc = which == 0 ? GeoArrowWKBWriterFinish(&wkb, &a, &err) : which == 1 ? GeoArrowWKTWriterFinish(&wkt, &a, &err) : GeoArrowNativeWriterFinish(&nat, &a, &err);
    VPR_CHECK(rc == 0, "finish: %d %s", rc, err.message);
    VPR_CHECK(a.length == n && a.null_count == nulls, "batch %d: length %ld (%d), null count %ld (%d)", b, (long)a.length, n, (long)a.null_count, nulls);
    VPR_CHECK(nulls == 0 || a.buffers[0], "nulls and no bitmap");
    for (int i = 0; i < n && a.buffers[0]; i++) VPR_CHECK((((const uint8_t*)a.buffers[0])[i / 8] >> i % 8 & 1) == !is[i], "validity of element %d of batch %d", i, b);
    a.release(&a);
    free(is);
    (void)dead;
  }
  if (which == 0) GeoArrowWKBWriterReset(&wkb);
  else if (which == 1) GeoArrowWKTWriterReset(&wkt);
  else GeoArrowNativeWriterReset(&nat);
  return 0;
}
