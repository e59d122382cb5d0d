/* C03, C04: WKB arrays against a plain encoder. */
#include "geom.h"

typedef struct { int type, dims; uint32_t count; size_t pos; } open_t;
typedef struct {
  vbuf bytes;
  size_t off[64];
  int null[64];
  int n;
} model;
static void check_array(struct GeoArrowWKBWriter* w, model* m) {
  struct ArrowArray a;
  int nulls = 0;
  for (int i = 0; i < m->n; i++) nulls += m->null[i];
  VPR_CHECK(GeoArrowWKBWriterFinish(w, &a, NULL) == GEOARROW_OK, "finish");
  VPR_CHECK(a.length == m->n, "length is %d, not %d", (int)a.length, m->n);
  VPR_CHECK(a.null_count == nulls, "null count is %d, not %d", (int)a.null_count, nulls);
  const uint8_t* valid = a.buffers[0];
  const int32_t* off = a.buffers[1];
  const uint8_t* data = a.buffers[2];
  VPR_CHECK(valid || !nulls, "no validity bitmap");
  for (int i = 0; i < m->n; i++) {
    VPR_CHECK(!valid || ((valid[i / 8] >> (i % 8)) & 1) == !m->null[i], "validity of element %d", i);
    VPR_CHECK((size_t)off[i] == m->off[i], "element %d starts at %d, not %d", i, off[i], (int)m->off[i]);
  }
  VPR_CHECK((size_t)off[m->n] == m->bytes.n, "the data has %d bytes, not %d", off[m->n], (int)m->bytes.n);
  for (size_t i = 0; i < m->bytes.n; i++)
    VPR_CHECK(data[i] == m->bytes.p[i], "byte %d of %d is %02x, not %02x", (int)i, (int)m->bytes.n, data[i], m->bytes.p[i]);
  a.release(&a);
  m->bytes.n = 0;
  m->n = 0;
}
static void m_header(model* m, open_t* st, int lv, int type, int dims) {
  vb_u8(&m->bytes, 1);
  vb_u32(&m->bytes, type + 1000 * (dims - 1), 0);
  st[lv].pos = m->bytes.n;
  if (type != 1) vb_u32(&m->bytes, 0, 0);
}
#ifdef VP_C03
int vp_case(vpr* r) {
  struct GeoArrowWKBWriter w;
  struct GeoArrowVisitor v;
  struct GeoArrowError e;
  model m;
  memset(&m, 0, sizeof(m));
  VPR_CHECK(GeoArrowWKBWriterInit(&w) == GEOARROW_OK, "init");
  GeoArrowWKBWriterInitVisitor(&w, &v);
  v.error = &e;
  int batches = vpr_in(r, 1, 3), work = 0, dead = 0;
  if (vpr_p(r, 8)) vpr_fail_in = vpr_in(r, 1, 12);
  for (int b = 0; b < batches && !dead; b++) {
    int feats = vpr_in(r, 0, 12);
    for (int f = 0; f < feats && !dead; f++) {
      open_t st[40];
      memset(st, 0, sizeof(st));
      int lv = 0, rc;
      m.off[m.n] = m.bytes.n;
      m.null[m.n] = 0;
      rc = v.feat_start(&v);
      if (vpr_fail_in == 0 && rc) dead = 1;
      VPR_CHECK(dead || rc == GEOARROW_OK || vpr_fail_in, "feat_start");
      if (rc) { dead = 1; break; }
      if (vpr_p(r, 15)) { m.null[m.n] = 1; VPR_CHECK(v.null_feat(&v) == GEOARROW_OK, "null_feat"); }
      if (vpr_p(r, 50)) { /* a proper geometry */
        vgeom g;
        int k;
        vg_gen(r, &g, 1);
        rc = vg_visit(r, &v, &g, 0, 0, &k);
        if (rc == GEOARROW_OK) vg_wkb(&g, 0, &m.bytes, 0);
        vg_free(&g);
        VPR_CHECK(rc == GEOARROW_OK || rc == ENOMEM, "a proper geometry is refused (%d)", rc);
        if (rc) { dead = 1; break; }
        work = 1;
      } else { /* any events */
        int ev = vpr_in(r, 0, vpr_p(r, 20) ? 90 : 14), up = vpr_in(r, 20, 70), expect;
        for (int q = 0; q < ev && !dead; q++) {
          int which = vpr_p(r, up) ? vpr_in(r, 0, 2) : vpr_in(r, 2, 4);
          expect = lv > 30 ? EINVAL : GEOARROW_OK;
          if (which == 0) {
            int t = vpr_in(r, 0, 7), d = vpr_in(r, 1, 4);
            rc = v.geom_start(&v, (enum GeoArrowGeometryType)t, (enum GeoArrowDimensions)d);
            if (!expect && !rc) {
              st[lv].count++;
              lv++;
              m_header(&m, st, lv, t, d);
              st[lv].type = t; st[lv].dims = d; st[lv].count = 0;
            }
          } else if (which == 1) {
            rc = v.ring_start(&v);
            if (!expect && !rc) {
              st[lv].count++;
              lv++;
              st[lv].pos = m.bytes.n; st[lv].type = 0; st[lv].count = 0;
              vb_u32(&m.bytes, 0, 0);
            }
          } else if (which == 2) {
            struct GeoArrowGeometryNode nd;
            uint8_t* own;
            memset(&nd, 0, sizeof(nd));
            nd.dimensions = vpr_in(r, 1, 4);
            vg_coords(r, &nd, &own, vg_len(r), 1);
            vview o;
            vv_make(r, &nd, 0, nd.size, &o);
            rc = v.coords(&v, &o.v);
            if (!expect && !rc) {
              st[lv].count += nd.size;
              for (uint32_t i = 0; i < nd.size; i++)
                for (int j = 0; j < vg_nd(nd.dimensions); j++) { uint64_t u = vg_ord(&nd, j, i); vb_put(&m.bytes, &u, 8); }
            }
            free(o.own);
            free(own);
          } else {
            int ring = which == 3;
            if (lv < 1 || (ring && st[lv].type != 0)) expect = EINVAL;
            rc = ring ? v.ring_end(&v) : v.geom_end(&v);
            if (!expect && !rc) {
              if (st[lv].type != 1) {
                for (int z = 0; z < 4; z++) m.bytes.p[st[lv].pos + z] = (uint8_t)(st[lv].count >> (8 * z));
              } else if (!st[lv].count) {
                uint64_t nan = 0x7ff8000000000000ULL;
                for (int j = 0; j < vg_nd(st[lv].dims); j++) vb_put(&m.bytes, &nan, 8);
              }
              lv--;
            }
          }
          if (rc == ENOMEM) dead = 1;
          VPR_CHECK(dead || rc == expect, "event %d at level %d gives %d, not %d", which, lv, rc, expect);
          work |= ev > 4;
        }
      }
      if (dead) break;
      rc = v.feat_end(&v);
      if (rc == ENOMEM) { dead = 1; break; }
      VPR_CHECK(rc == GEOARROW_OK, "feat_end");
      m.n++;
    }
    if (vpr_fail_in > 0) vpr_fail_in = 0;
    if (!dead) check_array(&w, &m);
  }
  vpr_fail_in = 0;
  if (dead) { /* a writer that has failed may be driven on; it only has to stay in its memory */
    for (int q = 0; q < 12; q++) {
      switch (vpr_in(r, 0, 6)) {
        case 0: v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY); break;
        case 1: v.ring_start(&v); break;
        case 2: v.ring_end(&v); break;
        case 3: case 4: v.geom_end(&v); break;
        case 5: v.feat_end(&v); break;
        default: v.feat_start(&v); break;
      }
    }
  }
  GeoArrowWKBWriterReset(&w);
  free(m.bytes.p);
  return work;
}
#else
int vp_case(vpr* r) {
  struct GeoArrowWKBWriter w;
  model m;
  memset(&m, 0, sizeof(m));
  VPR_CHECK(GeoArrowWKBWriterInit(&w) == GEOARROW_OK, "init");
  int batches = vpr_in(r, 1, 3), work = 0, dead = 0;
  if (vpr_p(r, 8)) vpr_fail_in = vpr_in(r, 1, 12);
  for (int b = 0; b < batches && !dead; b++) {
    int feats = vpr_in(r, 0, 12);
    for (int f = 0; f < feats && !dead; f++) {
      int rc, expect = GEOARROW_OK;
      size_t at = m.bytes.n;
      m.off[m.n] = at;
      m.null[m.n] = vpr_p(r, 15);
      if (m.null[m.n]) {
        rc = GeoArrowWKBWriterAppendNull(&w);
      } else {
        vgeom g;
        vg_gen(r, &g, 1);
        work |= g.n > 1;
        if (vpr_p(r, 6)) { /* an unknown type somewhere that is no ring */
          int i = vpr_in(r, 0, g.n - 1);
          if (i == 0 || g.nodes[0].geometry_type > 3) {
            int ring = 0;
            for (int p = 0; p < i; p++)
              if (g.nodes[p].geometry_type == 3 && i <= p + (int)g.nodes[p].size) ring = 1;
            if (!ring) { g.nodes[i].geometry_type = vpr_p(r, 50) ? 0 : vpr_in(r, 8, 255); expect = EINVAL; }
          }
        }
        rc = GeoArrowWKBWriterAppend(&w, vg_view(&g));
        if (!expect) vg_wkb(&g, 0, &m.bytes, 0);
        vg_free(&g);
      }
      if (rc == ENOMEM) { dead = 1; break; }
      VPR_CHECK(rc == expect, "append gives %d, not %d", rc, expect);
      if (rc == GEOARROW_OK) m.n++;
    }
    vpr_fail_in = 0;
    if (!dead) check_array(&w, &m);
  }
  GeoArrowWKBWriterReset(&w);
  free(m.bytes.p);
  return work;
}
#endif
