/* C11, C12: the native writer, by events and by geometries, against a plain model of the array. */
#include "geom.h"
#include "nanoarrow/nanoarrow.h"
typedef struct { int kind, dims, nv, lv; vbuf off[3], ord[4], nulls; int64_t nc; } model;
static void m_off(model* m, int l, int64_t v) { int32_t x = (int32_t)v; vb_put(&m->off[l], &x, 4); }
static int64_t m_cnt(model* m, int l) { return l == m->lv ? m->nc : (int64_t)m->off[l].n / 4 - 1; }
static void m_end(model* m, int l) { m_off(m, l, m_cnt(m, l + 1)); }
static void m_coord(model* m, const struct GeoArrowGeometryNode* n, uint32_t i) {
  static const char* names[] = {"", "xy", "xyz", "xym", "xyzm"};
  for (int j = 0; j < m->nv; j++) {
    uint64_t u = 0x7ff8000000000000ULL;
    for (int k = 0; n && names[n->dimensions][k]; k++)
      if (names[n->dimensions][k] == names[m->dims][j]) u = vg_ord(n, k, i);
    vb_put(&m->ord[j], &u, 8);
  }
  m->nc++;
}
static void m_coords(model* m, const struct GeoArrowGeometryNode* n) { for (uint32_t i = 0; i < n->size; i++) m_coord(m, n, i); }
static int64_t ncoords(const vgeom* g, int i) {
  int64_t n = 0;
  for (int e = i + vg_span(g, i); i < e; i++) if (g->nodes[i].geometry_type <= 2) n += g->nodes[i].size;
  return n;
}
/* One element; keep: sequences without coordinates count, too. 0: it cannot be represented. */
static int m_add(model* m, const vgeom* g, int keep) {
  const struct GeoArrowGeometryNode* n = g->nodes;
  int t = n->geometry_type, k = m->kind;
  int64_t nc = ncoords(g, 0);
  if (k == 1) {
    if (nc > 1) return 0;
    if (!nc) m_coord(m, NULL, 0);
    for (int i = 0; i < g->n; i++) if (g->nodes[i].geometry_type <= 2) m_coords(m, g->nodes + i);
    return 1;
  }
  if (keep && !nc) { m_off(m, 0, m_cnt(m, 1)); return 1; }
  if (k == 2 && !(t == 2 || (t == 5 && n->size <= 1))) return 0;
  if (k == 3 && !(t == 3 || (t == 6 && n->size <= 1))) return 0;
  if (k == 4 && !(t == 1 || t == 4)) return 0;
  if (k == 5 && !(t == 2 || t == 5)) return 0;
  if (k == 6 && !(t == 3 || t == 6)) return 0;
  for (int i = 0; i < g->n; i++) {
    int ty = g->nodes[i].geometry_type;
    if (ty <= 2) m_coords(m, g->nodes + i);
    if (ty == 2 && k != 2 && k != 4 && (keep || g->nodes[i].size)) m_end(m, m->lv - 1);
    if (k == 6) { /* the polygon that ends here */
      int p = i;
      while (p >= 0 && g->nodes[p].geometry_type != 3) p--;
      if (p >= 0 && p + vg_span(g, p) == i + 1) {
        int rings = 0;
        for (int q = p + 1; q <= i; q++) rings += keep || g->nodes[q].size;
        if (keep || rings) m_end(m, 1);
      }
    }
  }
  m_end(m, 0);
  return 1;
}
static void m_free(model* m) {
  for (int i = 0; i < 3; i++) free(m->off[i].p);
  for (int i = 0; i < 4; i++) free(m->ord[i].p);
  free(m->nulls.p);
}
static struct GeoArrowWritableArrayView* view(struct GeoArrowNativeWriter* w) { return &((struct GeoArrowBuilder*)w->private_data)->view; }
static int64_t elements(struct GeoArrowNativeWriter* w, int lv) { struct GeoArrowWritableArrayView* v = view(w); return lv ? v->buffers[1].size_bytes / 4 - 1 : v->coords.size_coords; }
/* offsets do not decrease and stay within their child */
static void sane(struct GeoArrowNativeWriter* w, int lv) {
  struct GeoArrowWritableArrayView* v = view(w);
  VPR_CHECK(v->coords.size_coords >= 0 && v->coords.size_coords <= v->coords.capacity_coords, "coordinates within their storage");
  for (int l = 0; l < lv; l++) {
    int64_t n = v->buffers[l + 1].size_bytes / 4, child = l == lv - 1 ? v->coords.size_coords : v->buffers[l + 2].size_bytes / 4 - 1;
    const int32_t* o = v->buffers[l + 1].data.as_int32;
    VPR_CHECK(n >= 1 && v->buffers[l + 1].size_bytes % 4 == 0 && o[0] == 0, "offsets of level %d start with zero", l);
    for (int64_t i = 1; i < n; i++) VPR_CHECK(o[i] >= o[i - 1], "offset %ld of level %d decreases", (long)i, l);
    VPR_CHECK(o[n - 1] <= child, "the last offset of level %d is past its child", l);
  }
}
/* what the model holds is what the writer holds; exact: and no more */
static void same(struct GeoArrowNativeWriter* w, model* m, int exact) {
  struct GeoArrowWritableArrayView* v = view(w);
  for (int l = 0; l < m->lv; l++) {
    VPR_CHECK(v->buffers[l + 1].size_bytes >= (int64_t)m->off[l].n && (!exact || v->buffers[l + 1].size_bytes == (int64_t)m->off[l].n), "%ld bytes of offsets at level %d, not %ld",
              (long)v->buffers[l + 1].size_bytes, l, (long)m->off[l].n);
    for (size_t i = 0; i < m->off[l].n / 4; i++) {
      int32_t x;
      memcpy(&x, m->off[l].p + 4 * i, 4);
      VPR_CHECK(x == v->buffers[l + 1].data.as_int32[i], "offset %ld of level %d is %d, not %d", (long)i, l, (int)v->buffers[l + 1].data.as_int32[i], (int)x);
    }
  }
  VPR_CHECK(v->coords.size_coords >= m->nc && (!exact || v->coords.size_coords == m->nc), "%ld coordinates, not %ld", (long)v->coords.size_coords, (long)m->nc);
  for (int j = 0; j < m->nv; j++)
    for (int64_t c = 0; c < m->nc; c++) {
      uint64_t a = vg_bits(&v->coords.values[j][c * v->coords.coords_stride]), b = vg_bits(m->ord[j].p + 8 * c);
      double x, y;
      memcpy(&x, &a, 8), memcpy(&y, &b, 8);
      VPR_CHECK(a == b || (isnan(x) && isnan(y)), "ordinate %d of coordinate %ld", j, (long)c);
    }
}
/* the model takes over what the writer holds */
static void adopt(struct GeoArrowNativeWriter* w, model* m) {
  struct GeoArrowWritableArrayView* v = view(w);
  for (int l = 0; l < m->lv; l++) { m->off[l].n = 0; vb_put(&m->off[l], v->buffers[l + 1].data.data, v->buffers[l + 1].size_bytes); }
  for (int j = 0; j < m->nv; j++)
    for (int64_t c = m->nc; c < v->coords.size_coords; c++) vb_put(&m->ord[j], &v->coords.values[j][c * v->coords.coords_stride], 8);
  m->nc = v->coords.size_coords;
}
static void flush(model* m) {
  for (int l = 0; l < m->lv; l++) VPR_CHECK(((int32_t*)m->off[l].p)[m->off[l].n / 4 - 1] == m_cnt(m, l + 1), "the last offset of level %d does not account for its child", l);
}
static void finished(struct ArrowArray* a, model* m, int inter) {
  int64_t n = m->lv ? m_cnt(m, 0) : m->nc, nulls = 0;
  VPR_CHECK(a->length == n && (int64_t)m->nulls.n == n, "length %ld, not %ld", (long)a->length, (long)n);
  for (int64_t i = 0; i < n; i++) nulls += m->nulls.p[i];
  VPR_CHECK(a->null_count == nulls, "null count %ld, not %ld", (long)a->null_count, (long)nulls);
  VPR_CHECK(nulls == 0 || a->buffers[0], "there is a bitmap");
  for (int64_t i = 0; i < n && a->buffers[0]; i++) VPR_CHECK(!(((const uint8_t*)a->buffers[0])[i / 8] >> i % 8 & 1) == m->nulls.p[i], "validity of element %ld", (long)i);
  struct ArrowArray* at = a;
  for (int l = 0; l < m->lv; l++, at = at->children[0]) {
    VPR_CHECK(at->length == m_cnt(m, l), "length of level %d", l);
    VPR_CHECK(memcmp(at->buffers[1], m->off[l].p, m->off[l].n) == 0, "offsets of level %d", l);
  }
  VPR_CHECK(at->length == m->nc, "%ld coordinates", (long)at->length);
  for (int j = 0; j < m->nv; j++)
    for (int64_t c = 0; c < m->nc; c++) {
      const double* p = (const double*)at->children[inter ? 0 : j]->buffers[1] + (inter ? c * m->nv + j : c);
      double y;
      memcpy(&y, m->ord[j].p + 8 * c, 8);
      VPR_CHECK(vg_bits(p) == vg_bits(&y) || (isnan(*p) && isnan(y)), "ordinate %d of coordinate %ld", j, (long)c);
    }
}
static void m_start(model* m) {
  for (int l = 0; l < 3; l++) m->off[l].n = 0;
  for (int j = 0; j < 4; j++) m->ord[j].n = 0;
  m->nulls.n = 0;
  m->nc = 0;
  for (int l = 0; l < m->lv; l++) m_off(m, l, 0);
}
static int wanted(vpr* r, int kind) {
  static const int of[7][4] = {{0}, {1, 1, 1, 4}, {2, 2, 2, 5}, {3, 3, 3, 6}, {4, 4, 1, 4}, {5, 5, 2, 5}, {6, 6, 3, 6}};
  return vpr_p(r, 92) ? of[kind][vpr_in(r, 0, 3)] : (int)vpr_in(r, 1, 7);
}
int vp_case(vpr* r) {
  static const int depth[] = {0, 0, 1, 2, 1, 2, 3}, nvs[] = {0, 2, 3, 3, 4};
  model m;
  memset(&m, 0, sizeof m);
  m.kind = vpr_in(r, 1, 6), m.dims = vpr_in(r, 1, 4), m.nv = nvs[m.dims], m.lv = depth[m.kind];
  int inter = vpr_p(r, 50), dead = 0;
  struct GeoArrowNativeWriter w;
  struct GeoArrowVisitor v;
  struct GeoArrowError err;
  err.message[0] = 0;
  VPR_CHECK(GeoArrowNativeWriterInit(&w, GeoArrowMakeType((enum GeoArrowGeometryType)m.kind, (enum GeoArrowDimensions)m.dims, inter ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE)) == 0, "init");
  v.error = &err;
  VPR_CHECK(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "visitor");
  int rounds = 1 + vpr_p(r, 30);
  for (int round = 0; round < rounds && !dead; round++) {
    m_start(&m);
    same(&w, &m, 1);
    int feats = vpr_in(r, 0, 8);
    for (int f = 0; f < feats && !dead; f++) {
      vgeom g;
      g.n = 0;
      int64_t before = elements(&w, m.lv);
#ifdef VP_C11
      int how = vpr_in(r, 0, 2);
#else
      int how = vpr_p(r, 15) ? 1 : vpr_in(r, 3, 5);
#endif
      vg_tree(r, &g, wanted(r, m.kind), vpr_in(r, 1, 4), 0, how >= 3);
      if (vpr_p(r, 10)) vpr_fail_in = 1 + vpr_in(r, 0, 3);
      if (how == 0) { /* events in any order */
        int null = 0, ok = v.feat_start(&v) == 0, n = vpr_in(r, 0, 12);
        for (int e = 0; e < n && ok; e++) {
          int rc = 0;
          switch (vpr_in(r, 0, 7)) {
            case 0: rc = v.geom_start(&v, (enum GeoArrowGeometryType)vpr_in(r, 0, 8), (enum GeoArrowDimensions)vpr_in(r, 1, 4)); break;
            case 1: rc = v.ring_start(&v); break;
            case 2: rc = v.ring_end(&v); break;
            case 3: rc = v.geom_end(&v); break;
            case 4: if (vpr_p(r, 40)) { null = 1; rc = v.null_feat(&v); } break;
            case 5: rc = v.geom_end(&v); break;
            default: {
              int d = vpr_in(r, 1, 4);
              struct GeoArrowGeometryNode nd;
              uint8_t* own;
              memset(&nd, 0, sizeof nd);
              nd.dimensions = d;
              vg_coords(r, &nd, &own, vpr_in(r, 0, 3), 0);
              vview o;
              vv_make(r, &nd, 0, nd.size, &o);
              rc = v.geom_start(&v, (enum GeoArrowGeometryType)vpr_in(r, 1, 7), (enum GeoArrowDimensions)d);
              if (!rc) rc = v.coords(&v, &o.v);
              free(o.own), free(own);
            }
          }
          sane(&w, m.lv);
          same(&w, &m, 0);
          ok = rc == 0;
        }
        if (ok) ok = v.feat_end(&v) == 0;
        vpr_fail_in = 0;
        sane(&w, m.lv);
        same(&w, &m, 0);
        if (!ok) { dead = 1; break; }
        VPR_CHECK(elements(&w, m.lv) == before + 1, "one feature is one element, not %ld", (long)(elements(&w, m.lv) - before));
        adopt(&w, &m);
        flush(&m);
        vb_u8(&m.nulls, null);
      } else if (how <= 2) { /* the events of a geometry, or of a null */
        int null = vpr_p(r, 20), q = 0, rc = v.feat_start(&v);
        if (null && !rc) rc = v.null_feat(&v);
        if (!null && !rc) rc = vg_visit(r, &v, &g, 0, 0, &q);
        if (!rc) rc = v.feat_end(&v);
        int faulty = vpr_fail_in == 0;
        vpr_fail_in = 0;
        sane(&w, m.lv);
        if (rc) {
          same(&w, &m, 0);
          int64_t nc = ncoords(&g, 0);
          int fits = null || (m.kind == 1 ? nc <= 1 : m.kind == 2 ? (g.nodes[0].geometry_type == 2 || (g.nodes[0].geometry_type == 5 && g.nodes[0].size <= 1)) : m.kind != 4);
          VPR_CHECK(rc == ENOMEM || !fits, "a feature the type can hold is refused: %d %s", rc, err.message);
          (void)faulty;
          dead = 1;
        } else if (null) {
          if (m.lv) m_end(&m, 0); else m_coord(&m, NULL, 0);
          same(&w, &m, 1);
          vb_u8(&m.nulls, 1);
        } else {
          int t = g.nodes[0].geometry_type, k = m.kind;
          int plain = k == 1 ? t == 1 : k == 2 ? t == 2 || t == 5 : k == 3 ? t == 3 || t == 5 : k == 4 ? t == 1 || t == 4 : k == 5 ? t == 2 || t == 5 || t == 3 : t == 3 || t == 6;
          if (plain && ((k == 3 && t == 5) || (k == 5 && t == 3))) { /* both are lists of sequences */
            for (int i = 0; i < g.n; i++)
              if (g.nodes[i].geometry_type == 2) { m_coords(&m, g.nodes + i); if (g.nodes[i].size) m_end(&m, 1); }
            m_end(&m, 0);
            same(&w, &m, 1);
          } else if (plain) {
            VPR_CHECK(m_add(&m, &g, 0), "a feature the type cannot hold is accepted");
            same(&w, &m, 1);
          } else {
            same(&w, &m, 0);
            VPR_CHECK(elements(&w, m.lv) == before + 1, "one feature is one element");
            if (k == 1) VPR_CHECK(ncoords(&g, 0) <= 1, "a feature the type cannot hold is accepted");
            adopt(&w, &m);
            flush(&m);
          }
          vb_u8(&m.nulls, 0);
        }
      } else if (how == 3 && vpr_p(r, 50)) {
        int rc = GeoArrowNativeWriterAppendNull(&w);
        vpr_fail_in = 0;
        sane(&w, m.lv);
        if (rc) { VPR_CHECK(rc == ENOMEM, "code %d", rc); same(&w, &m, 0); dead = 1; }
        else {
          if (m.lv) m_end(&m, 0); else m_coord(&m, NULL, 0);
          same(&w, &m, 1);
          vb_u8(&m.nulls, 1);
        }
      } else {
        int broken = how == 5 && vpr_p(r, 50), huge = !broken && vpr_p(r, 6), rc;
        int n = g.n;
        if (broken) {
          if (vpr_p(r, 60)) n = vpr_in(r, 1, n);
          for (int c = vpr_in(r, 0, 2); c > 0; c--) {
            struct GeoArrowGeometryNode* nd = g.nodes + vpr_in(r, 0, n - 1);
            switch (vpr_in(r, 0, 2)) {
              case 0: if (nd->geometry_type > 2) nd->size = gen_count(r); else nd->size = vpr_in(r, 0, nd->size); break;
              case 1: if (nd->geometry_type > 2) nd->geometry_type = vpr_in(r, 0, 8) > 2 ? vpr_in(r, 3, 7) : 0; break;
              default: nd->geometry_type = vpr_in(r, 3, 7); break;
            }
          }
        } else if (huge) { /* one ordinate, over and over: more coordinates than offsets can count */
          for (int i = 0; i < n; i++)
            if (g.nodes[i].geometry_type == 2 && g.nodes[i].size) {
              memset(g.nodes[i].coord_stride, 0, sizeof g.nodes[i].coord_stride);
              g.nodes[i].size = vpr_p(r, 50) ? 0x80000000u : 0xffffffffu;
            }
          huge = ncoords(&g, 0) > 0x7fffffff;
          if (m.kind == 1 && !huge) huge = 0;
        }
        struct GeoArrowGeometryNode* own = (struct GeoArrowGeometryNode*)malloc(n * sizeof *own); /* no node past the end */
        memcpy(own, g.nodes, n * sizeof *own);
        struct GeoArrowGeometryView gv = {own, n};
        rc = GeoArrowNativeWriterAppend(&w, gv, &err);
        free(own);
        vpr_fail_in = 0;
        sane(&w, m.lv);
        if (huge) { VPR_CHECK(rc != 0, "offsets past 2^31 - 1"); same(&w, &m, 1); }
        else if (broken) {
          if (rc) same(&w, &m, rc != ENOMEM);
          else {
            same(&w, &m, 0);
            VPR_CHECK(elements(&w, m.lv) == before + 1, "one element, not %ld", (long)(elements(&w, m.lv) - before));
            adopt(&w, &m);
            flush(&m);
            vb_u8(&m.nulls, 0);
          }
        } else if (rc == ENOMEM) { same(&w, &m, 0); dead = 1; }
        else if (rc) {
          same(&w, &m, 1);
          VPR_CHECK(!m_add(&m, &g, 1), "a geometry the type can hold is refused: %d %s", rc, err.message);
        } else {
          VPR_CHECK(m_add(&m, &g, 1), "a geometry the type cannot hold is accepted");
          same(&w, &m, 1);
          vb_u8(&m.nulls, 0);
        }
        if (rc == ENOMEM) dead = 1;
      }
      vg_free(&g);
    }
    if (dead) break;
    struct ArrowArray a;
    a.release = NULL;
    int rc = GeoArrowNativeWriterFinish(&w, &a, &err);
    VPR_CHECK(rc == 0, "finish: %d %s", rc, err.message);
    finished(&a, &m, inter);
    a.release(&a);
  }
  GeoArrowNativeWriterReset(&w);
  m_free(&m);
  return 0;
}
