/* C21: filling the buffers of a builder in pieces, with allocations that fail on the way, and finishing. */
#include "geom.h"
#include "nanoarrow/nanoarrow.h"
static int g_frees;
static void on_free(uint8_t* p, int64_t n, void* d) {
  VPR_CHECK(d == (void*)&g_frees, "the caller's private data");
  (void)n;
  free(p);
  g_frees++;
}
static struct ArrowArray* leaf(struct ArrowArray* a, int levels) {
  for (int l = 0; l < levels; l++) a = a->children[0];
  return a;
}
int vp_case(vpr* r) {
  static const enum GeoArrowGeometryType kinds[] = {GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_GEOMETRY_TYPE_POLYGON, GEOARROW_GEOMETRY_TYPE_MULTIPOINT,
                                                    GEOARROW_GEOMETRY_TYPE_MULTILINESTRING, GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON, GEOARROW_GEOMETRY_TYPE_BOX};
  static const int depth[] = {0, 1, 2, 1, 2, 3, 0};
  static const int bits[] = {0, 2, 3, 3, 4};
  int k = vpr_in(r, 0, 7), serial = k == 7, box = k == 6, inter = !serial && !box && vpr_p(r, 50), dims = vpr_in(r, 1, 4);
  int levels = serial ? 1 : depth[k], nv = serial ? 1 : bits[dims] * (box ? 2 : 1), which = vpr_in(r, 0, 3);
  static const enum GeoArrowType st[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT};
  enum GeoArrowType type = serial ? st[which] : GeoArrowMakeType(kinds[k], (enum GeoArrowDimensions)dims, inter ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE);
  int wide = serial && (which & 1);
  struct GeoArrowBuilder b;
  struct GeoArrowError err;
  err.message[0] = 0;
  int nb = 1 + levels + (serial || inter ? 1 : nv), first = 1 + levels;
  /* (allocations of nanoarrow's arrays and schemas are not made to fail: the vendored code does not check all of them) */
  int rc = vpr_p(r, 50) ? GeoArrowBuilderInitFromType(&b, type) : -1;
  if (rc == -1) {
    struct ArrowSchema s;
    VPR_CHECK(GeoArrowSchemaInitExtension(&s, type) == 0, "schema");
    rc = GeoArrowBuilderInitFromSchema(&b, &s, &err);
    s.release(&s);
  }
  VPR_CHECK(rc == 0, "init of a valid type");
  VPR_CHECK(b.view.n_buffers == nb, "%d buffers, not %d", (int)b.view.n_buffers, nb);
  int rounds = 1 + vpr_p(r, 40);
  for (int round = 0; round < rounds; round++) {
    /* what the array is to hold */
    vbuf want[9];
    int64_t len[5], at[9];
    memset(want, 0, sizeof want);
    memset(at, 0, sizeof at);
    len[0] = vpr_p(r, 8) ? 0 : vpr_in(r, 0, 12);
    for (int l = 0; l < levels; l++) {
      int64_t o = 0;
      int none = len[l] == 0 && vpr_p(r, 50); /* no offset at all */
      if (!none) vb_put(&want[1 + l], &o, wide ? 8 : 4);
      for (int64_t i = 0; i < len[l]; i++) {
        o += vpr_p(r, 30) ? 0 : vpr_in(r, 0, serial ? 9 : 4);
        vb_put(&want[1 + l], &o, wide ? 8 : 4);
      }
      len[l + 1] = o;
    }
    int coords = !serial && vpr_p(r, 50);
    int64_t n = len[levels];
    if (serial) { for (int64_t i = 0; i < n; i++) vb_u8(&want[2], vpr_u8(r)); }
    else
      for (int64_t i = 0; i < n * nv; i++) vb_f64(&want[first + (inter ? 0 : i % nv)], vpr_double(r), 0);
    if (vpr_p(r, 30)) for (int64_t i = 0; i < (len[0] + 7) / 8; i++) vb_u8(&want[0], vpr_u8(r));
    int64_t done = 0; /* coordinates appended as such */
    int faults = vpr_p(r, 40), owned[9] = {0}, gone = 0;
    for (int steps = 0; ; steps++) {
      int open[10], n_open = 0;
      for (int i = 0; i < nb; i++)
        if (at[i] < (int64_t)want[i].n && !(coords && i >= first)) open[n_open++] = i;
      if (coords && done < n) open[n_open++] = 9;
      if (!n_open) break;
      int i = open[vpr_in(r, 0, n_open - 1)];
      int failing = faults && steps < 60 && vpr_p(r, 30);
      if (failing) vpr_fail_in = 1 + vpr_in(r, 0, 2);
      if (i == 9) {
        int64_t m = vpr_in(r, 0, n - done);
        if (vpr_p(r, 25)) {
          int64_t c = b.view.coords.capacity_coords;
          rc = GeoArrowBuilderCoordsReserve(&b, m);
          VPR_CHECK(b.view.coords.size_coords == done, "reserving adds nothing");
          if (!rc) VPR_CHECK(b.view.coords.capacity_coords >= done + m, "reserved (%d before)", (int)c);
        } else {
          struct GeoArrowCoordView cv;
          memset(&cv, 0, sizeof cv);
          cv.n_coords = n;
          cv.n_values = nv;
          cv.coords_stride = inter ? nv : 1;
          for (int j = 0; j < nv; j++) cv.values[j] = (const double*)want[first + (inter ? 0 : j)].p + (inter ? j : 0);
          if (box) { /* a box has no dimensions of its own to copy by: its ordinates one by one */
            rc = GeoArrowBuilderCoordsReserve(&b, m);
            if (!rc) {
              for (int j = 0; j < nv; j++) if (m) memcpy(b.view.coords.values[j] + done, cv.values[j] + done, 8 * m);
              b.view.coords.size_coords += m;
              done += m;
            }
          } else {
            rc = GeoArrowBuilderCoordsAppend(&b, &cv, (enum GeoArrowDimensions)dims, done, m);
            if (!rc) done += m;
          }
          VPR_CHECK(b.view.coords.size_coords == done, "%ld coordinates, not %ld", (long)b.view.coords.size_coords, (long)done);
        }
        for (int j = 0; j < nv && done; j++)
          for (int64_t c = 0; c < done; c++)
            VPR_CHECK(memcmp(b.view.coords.values[j] + c * b.view.coords.coords_stride, want[first + (inter ? 0 : j)].p + 8 * (inter ? c * nv + j : c), 8) == 0, "ordinate %d of coordinate %ld", j, (long)c);
      } else {
        int unit = i > 0 && i < first && !serial ? 4 : 1;
        int64_t m = vpr_in(r, 0, ((int64_t)want[i].n - at[i]) / unit) * unit;
        if (m == 0 && !b.view.buffers[i].data.data) m = unit;
        if (vpr_p(r, 10) && at[i] == 0) {
          struct GeoArrowBufferView v = {vpr_dup(want[i].p, want[i].n), (int64_t)want[i].n};
          int before = g_frees, was = owned[i];
          rc = GeoArrowBuilderSetOwnedBuffer(&b, i, v, on_free, &g_frees);
          if (!rc) { at[i] = (int64_t)want[i].n; owned[i] = 1; VPR_CHECK(g_frees == before + was, "what the buffer held is released"); }
          else { free((void*)v.data); VPR_CHECK(g_frees == before, "the memory stays the caller's"); }
        } else if (vpr_p(r, 20)) {
          int64_t x = m + unit * vpr_in(r, 0, 40);
          rc = unit == 4 && vpr_p(r, 50) ? GeoArrowBuilderOffsetReserve(&b, i - 1, x / 4) : GeoArrowBuilderReserveBuffer(&b, i, x);
          if (!rc) VPR_CHECK(b.view.buffers[i].capacity_bytes >= at[i] + x, "reserved");
        } else {
          struct GeoArrowBufferView v = {vpr_dup(want[i].p + at[i], m), m};
          rc = unit == 4 && vpr_p(r, 50) ? GeoArrowBuilderOffsetAppend(&b, i - 1, (const int32_t*)v.data, m / 4) : GeoArrowBuilderAppendBuffer(&b, i, v);
          if (!rc) at[i] += m;
          free((void*)v.data);
        }
        if (rc && owned[i] && b.view.buffers[i].size_bytes == 0) { at[i] = 0; owned[i] = 0; gone++; }
        VPR_CHECK(b.view.buffers[i].size_bytes == at[i], "buffer %d has %ld bytes, not %ld", i, (long)b.view.buffers[i].size_bytes, (long)at[i]);
        VPR_CHECK(b.view.buffers[i].capacity_bytes >= at[i], "capacity");
        if (at[i]) VPR_CHECK(memcmp(b.view.buffers[i].data.data, want[i].p, at[i]) == 0, "the bytes of buffer %d", i);
      }
      VPR_CHECK(rc == 0 || (failing && rc == ENOMEM), "code %d", rc);
      vpr_fail_in = 0;
    }
    struct ArrowArray a;
    a.release = NULL;
    rc = GeoArrowBuilderFinish(&b, &a, &err);
    VPR_CHECK(rc == 0, "finish: %d %s", rc, err.message);
    {
      VPR_CHECK(a.length == len[0] || (serial && want[1].n == 0 && a.length == 0), "length %ld, not %ld", (long)a.length, (long)len[0]);
      for (int l = 0; l <= levels && !serial; l++) VPR_CHECK(leaf(&a, l)->length == len[l], "length %ld at level %d, not %ld", (long)leaf(&a, l)->length, l, (long)len[l]);
      for (int i = 0; i < nb; i++) {
        const void* p = i == 0 || serial ? a.buffers[i] : i < first ? leaf(&a, i - 1)->buffers[1] : leaf(&a, levels)->children[i - first]->buffers[1];
        if (want[i].n) VPR_CHECK(p && memcmp(p, want[i].p, want[i].n) == 0, "buffer %d of the array", i);
        if (i >= first && !serial) VPR_CHECK(leaf(&a, levels)->children[i - first]->length == n * (inter ? nv : 1), "ordinates");
      }
      VPR_CHECK(want[0].n ? a.null_count == -1 : a.null_count == 0, "null count");
      a.release(&a);
      for (int i = 0; i < nb; i++) VPR_CHECK(b.view.buffers[i].size_bytes == 0 && b.view.buffers[i].data.data == NULL, "the next array starts empty");
      VPR_CHECK(b.view.coords.size_coords == 0, "the next array starts empty");
    }
    for (int i = 0; i < 9; i++) free(want[i].p);
  }
  GeoArrowBuilderReset(&b);
  return 1;
}
