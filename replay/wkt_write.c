/* C06, C20: WKT arrays against a plain printer of the events. */
#include "geom.h"

int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result);
typedef struct { int type; int64_t count; } open_t;
typedef struct {
  vbuf bytes;
  size_t off[64];
  int null[64];
  int n;
  int precision, flat;
  int64_t max;
} model;
static const char* NAMES[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
static const char* DIMS[] = {"", " ", " Z ", " M ", " ZM "};
static void m_puts(model* m, const char* s) { vb_put(&m->bytes, s, strlen(s)); }
static void m_num(model* m, double d) {
  char t[512];
  memset(t, 0x55, sizeof t);
  int64_t n = GeoArrowPrintDouble(d, m->precision, t);
  VPR_CHECK(n >= 1 && n <= 40, "a number of %d bytes", (int)n);
  for (int i = 40; i < 512; i++) VPR_CHECK(t[i] == 0x55, "printing %.17g writes byte %d", d, i);
  vb_put(&m->bytes, t, n);
}
static void check_array(struct GeoArrowWKTWriter* w, model* m) {
  struct ArrowArray a;
  int nulls = 0;
  for (int i = 0; i < m->n; i++) nulls += m->null[i];
  VPR_CHECK(GeoArrowWKTWriterFinish(w, &a, NULL) == GEOARROW_OK, "finish");
  VPR_CHECK(a.length == m->n, "length is %d, not %d", (int)a.length, m->n);
  VPR_CHECK(a.null_count == nulls, "null count is %d, not %d", (int)a.null_count, nulls);
  const uint8_t* valid = a.buffers[0];
  const int32_t* off = a.buffers[1];
  const uint8_t* data = a.buffers[2];
  VPR_CHECK(valid || !nulls, "no validity bitmap");
  for (int i = 0; i < m->n; i++) {
    VPR_CHECK(!valid || ((valid[i / 8] >> (i % 8)) & 1) == !m->null[i], "validity of element %d", i);
    VPR_CHECK((size_t)off[i] == m->off[i], "element %d starts at %d, not %d", i, off[i], (int)m->off[i]);
    if (m->max >= 0) VPR_CHECK(off[i + 1] - off[i] <= m->max, "element %d is %d bytes long, the limit is %lld", i, off[i + 1] - off[i], (long long)m->max);
  }
  VPR_CHECK((size_t)off[m->n] == m->bytes.n, "the data has %d bytes, not %d", off[m->n], (int)m->bytes.n);
  for (size_t i = 0; i < m->bytes.n; i++)
    VPR_CHECK(data[i] == m->bytes.p[i], "byte %d of %d is %02x, not %02x", (int)i, (int)m->bytes.n, data[i], m->bytes.p[i]);
  a.release(&a);
  m->bytes.n = 0;
  m->n = 0;
}
int vp_case(vpr* r) {
  struct GeoArrowWKTWriter w;
  struct GeoArrowVisitor v;
  struct GeoArrowError e;
  model m;
  memset(&m, 0, sizeof(m));
  VPR_CHECK(GeoArrowWKTWriterInit(&w) == GEOARROW_OK, "init");
  w.precision = vpr_p(r, 30) ? 16 : vpr_in(r, -1, 18);
  m.precision = w.precision < 0 || w.precision > 16 ? 16 : w.precision;
  m.flat = w.use_flat_multipoint = vpr_p(r, 50);
  m.max = w.max_element_size_bytes = vpr_p(r, 50) ? -1 : vpr_p(r, 50) ? vpr_in(r, 0, 60) : vpr_in(r, 0, 1500);
  GeoArrowWKTWriterInitVisitor(&w, &v);
  v.error = &e;
  int batches = vpr_in(r, 1, 3), work = 0, dead = 0;
  if (vpr_p(r, 8)) vpr_fail_in = vpr_in(r, 1, 12);
  for (int b = 0; b < batches && !dead; b++) {
    int feats = vpr_in(r, 0, 12);
    for (int f = 0; f < feats && !dead; f++) {
      open_t st[64];
      memset(st, 0, sizeof(st));
      int lv = -1, rc;
      size_t at = m.off[m.n] = m.bytes.n;
      m.null[m.n] = 0;
      rc = v.feat_start(&v);
      if (rc) { VPR_CHECK(rc == ENOMEM, "feat_start"); dead = 1; break; }
      if (vpr_p(r, 15)) { m.null[m.n] = 1; VPR_CHECK(v.null_feat(&v) == GEOARROW_OK, "null_feat"); }
      int ev = m.null[m.n] && vpr_p(r, 60) ? 0 : vpr_in(r, 0, vpr_p(r, 20) ? 90 : 14), up = vpr_in(r, 20, 70), expect, again = 0;
      for (int q = 0; q < ev && !dead && !again; q++) {
        int which = vpr_p(r, up) ? vpr_in(r, 0, 2) : vpr_in(r, 2, 4);
        int ok = lv >= 0 && lv <= 31;
        expect = ok ? GEOARROW_OK : EINVAL;
        if (which <= 1) {
          int t = which ? 0 : vpr_in(r, 1, 7), d = vpr_in(r, 1, 4);
          if (!which && vpr_p(r, 3)) t = vpr_p(r, 50) ? 0 : 8;
          rc = which ? v.ring_start(&v) : v.geom_start(&v, (enum GeoArrowGeometryType)t, (enum GeoArrowDimensions)d);
          lv++;
          expect = lv > 31 ? EINVAL : GEOARROW_OK;
          if (!expect) {
            if (lv > 0 && st[lv - 1].count > 0) m_puts(&m, ", "); else if (lv > 0 || which) m_puts(&m, "(");
            if (!which && (lv == 0 || st[lv - 1].type == 7)) {
              if (t < 1 || t > 7) expect = EINVAL;
              else { m_puts(&m, NAMES[t]); m_puts(&m, DIMS[d]); }
            }
          }
          if (!expect) {
            if (lv > 0) st[lv - 1].count++;
            st[lv].type = t; st[lv].count = 0;
          } else if (lv <= 31) {
            /* a refused type leaves the level open; the caller gives up */
            again = 1;
          }
        } else if (which == 2) {
          struct GeoArrowGeometryNode nd;
          uint8_t* own;
          memset(&nd, 0, sizeof(nd));
          nd.dimensions = vpr_in(r, 1, 4);
          vg_coords(r, &nd, &own, vg_len(r), 1);
          vview o;
          vv_make(r, &nd, 0, nd.size, &o);
          rc = v.coords(&v, &o.v);
          if (nd.size == 0) expect = GEOARROW_OK;
          else if (!expect) {
            if (st[lv].count) m_puts(&m, ", ");
            else if (lv < 1 || !m.flat || st[lv - 1].type != 4) m_puts(&m, "(");
            for (uint32_t i = 0; i < nd.size; i++) {
              if (i) {
                if (m.max >= 0 && (int64_t)(m.bytes.n - at) >= m.max) { expect = EAGAIN; break; }
                m_puts(&m, ", ");
              }
              for (int j = 0; j < vg_nd(nd.dimensions); j++) {
                if (j) m_puts(&m, " ");
                double d;
                uint64_t u = vg_ord(&nd, j, i);
                memcpy(&d, &u, 8);
                m_num(&m, d);
              }
            }
            if (!expect) st[lv].count += nd.size;
            else again = 1;
            work = 1;
          }
          free(o.own);
          free(own);
        } else {
          int ring = which == 3;
          rc = ring ? v.ring_end(&v) : v.geom_end(&v);
          if (!expect) {
            if (st[lv].count == 0) m_puts(&m, "EMPTY");
            else if (ring || lv < 1 || !m.flat || st[lv - 1].type != 4) m_puts(&m, ")");
            lv--;
          }
        }
        if (rc == ENOMEM) dead = 1;
        VPR_CHECK(dead || rc == expect, "event %d at level %d gives %d, not %d", which, lv, rc, expect);
      }
      if (dead) break;
      rc = v.feat_end(&v);
      if (rc == ENOMEM) { dead = 1; break; }
      VPR_CHECK(rc == GEOARROW_OK, "feat_end");
      if (m.max >= 0 && (int64_t)(m.bytes.n - at) > m.max) m.bytes.n = at + (size_t)m.max;
      m.n++;
    }
    vpr_fail_in = 0;
    if (!dead) check_array(&w, &m);
  }
  vpr_fail_in = 0;
  if (dead)
    for (int q = 0; q < 12; q++)
      switch (vpr_in(r, 0, 6)) {
        case 0: v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY); break;
        case 1: v.ring_start(&v); break;
        case 2: v.ring_end(&v); break;
        case 3: case 4: v.geom_end(&v); break;
        case 5: v.feat_end(&v); break;
        default: v.feat_start(&v); break;
      }
  GeoArrowWKTWriterReset(&w);
  free(m.bytes.p);
  return work;
}
