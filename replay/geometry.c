/* C13, C14, C15: geometries built from events, visited, and copied. */
#include "geom.h"

static void same_tree(const struct GeoArrowGeometryNode* got, int64_t n, const vgeom* g, const char* what) {
  VPR_CHECK(n == g->n, "%s: %d nodes, not %d", what, (int)n, g->n);
  for (int i = 0; i < g->n; i++) {
    const struct GeoArrowGeometryNode *a = got + i, *b = g->nodes + i;
    VPR_CHECK(a->geometry_type == b->geometry_type && a->dimensions == b->dimensions && a->level == b->level, "%s: node %d has type %d dimensions %d level %d, not %d %d %d", what, i, a->geometry_type, a->dimensions, a->level, b->geometry_type, b->dimensions, b->level);
    VPR_CHECK(a->size == b->size, "%s: node %d (type %d) has size %u, not %u", what, i, b->geometry_type, a->size, b->size);
    if (b->geometry_type <= 2)
      for (uint32_t c = 0; c < b->size; c++)
        for (int j = 0; j < vg_nd(b->dimensions); j++)
          VPR_CHECK(vg_ord(a, j, c) == vg_ord(b, j, c), "%s: ordinate %d of coordinate %u of node %d", what, j, c, i);
  }
}
#ifdef VP_C13
int vp_case(vpr* r) {
  struct GeoArrowGeometry geom;
  struct GeoArrowVisitor v;
  struct GeoArrowError e;
  VPR_CHECK(GeoArrowGeometryInit(&geom) == GEOARROW_OK, "init");
  memset(&v, 0, sizeof(v));
  v.error = &e;
  GeoArrowGeometryInitVisitor(&geom, &v);
  int feats = vpr_in(r, 1, 5), work = 0;
  if (vpr_p(r, 10)) vpr_fail_in = vpr_in(r, 1, 10);
  for (int f = 0; f < feats; f++) {
    int rc = v.feat_start(&v);
    VPR_CHECK(rc == GEOARROW_OK || rc == ENOMEM, "feat_start");
    if (rc) continue;
    if (vpr_p(r, 60)) {
      vgeom g;
      int k;
      int will_fail = vpr_fail_in > 0;
      vg_gen(r, &g, 1);
      if (vpr_p(r, 6)) { /* a tower of collections around it */
        int d = vpr_in(r, 20, 33), deepest = 0;
        rc = GEOARROW_OK;
        for (int i = 0; i < d && !rc; i++) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XY);
        for (int i = 0; i < g.n; i++) if (g.nodes[i].level > deepest) deepest = g.nodes[i].level;
        if (!rc) rc = vg_visit(r, &v, &g, 0, 0, &k);
        VPR_CHECK(rc == (d + deepest + 1 > 31 ? EINVAL : GEOARROW_OK) || rc == ENOMEM, "%d levels give %d", d + deepest + 1, rc);
        for (int i = 0; i < d && !rc; i++) rc = v.geom_end(&v);
        if (!rc) rc = v.feat_end(&v);
        if (!rc) {
          VPR_CHECK(geom.size_nodes == g.n + d, "nodes of a tower");
          for (int i = 0; i < g.n; i++) g.nodes[i].level += d;
          for (int i = 0; i < d; i++) VPR_CHECK(geom.root[i].size == 1 && geom.root[i].level == i, "a collection of one");
          same_tree(geom.root + d, geom.size_nodes - d, &g, "tower");
        }
      } else {
        rc = vg_visit(r, &v, &g, 0, 0, &k);
        if (!rc) {
          rc = v.feat_end(&v);
          VPR_CHECK(rc == GEOARROW_OK, "feat_end");
          same_tree(geom.root, geom.size_nodes, &g, "events");
          work |= g.n > 1;
        } else {
          VPR_CHECK(rc == ENOMEM && will_fail, "a proper geometry is refused (%d)", rc);
          if (vpr_p(r, 50)) v.feat_end(&v);
        }
      }
      vg_free(&g);
    } else {
      int ev = vpr_in(r, 0, 40), up = vpr_in(r, 20, 80), depth = 0, bad = 0, nodes = 0;
      for (int q = 0; q < ev; q++) {
        int which = vpr_p(r, up) ? vpr_in(r, 0, 2) : vpr_in(r, 2, 5);
        if (which == 0) {
          rc = v.geom_start(&v, (enum GeoArrowGeometryType)vpr_in(r, 0, 7), (enum GeoArrowDimensions)vpr_in(r, 0, 4));
          if (!rc) depth++, nodes++;
          VPR_CHECK(rc || depth <= 31, "nesting is too deep");
        } else if (which == 1) {
          rc = v.ring_start(&v);
          if (!rc) depth++, nodes++;
          VPR_CHECK(rc || depth <= 31, "nesting is too deep");
        } else if (which == 2) {
          struct GeoArrowGeometryNode nd;
          uint8_t* own;
          vview o;
          memset(&nd, 0, sizeof(nd));
          nd.dimensions = vpr_in(r, 1, 4);
          vg_coords(r, &nd, &own, vg_len(r), 1);
          vv_make(r, &nd, 0, nd.size, &o);
          rc = v.coords(&v, &o.v);
          free(o.own);
          free(own);
        } else if (which == 5) {
          rc = vpr_p(r, 30) ? v.null_feat(&v) : vpr_p(r, 30) ? v.feat_end(&v) : 0;
        } else {
          rc = which == 3 ? v.ring_end(&v) : v.geom_end(&v);
          VPR_CHECK((rc != GEOARROW_OK) == (depth == 0), "an end at depth %d gives %d", depth, rc);
          if (!rc) depth--;
        }
        bad |= rc == ENOMEM;
      }
      rc = v.feat_end(&v);
      if (!rc) { /* every coordinate that a node claims can be read */
        volatile uint64_t sum = 0;
        for (int64_t i = 0; i < geom.size_nodes; i++)
          if (geom.root[i].geometry_type == 1 || geom.root[i].geometry_type == 2)
            for (uint32_t c = 0; c < geom.root[i].size; c++)
              for (int j = 0; j < vg_nd(geom.root[i].dimensions); j++) sum += vg_ord(geom.root + i, j, c);
      }
    }
    if (vpr_p(r, 40)) vpr_fail_in = 0;
  }
  vpr_fail_in = 0;
  GeoArrowGeometryReset(&geom);
  return work;
}
#elif defined(VP_C14)
/* Records and checks the events of a visit against the node list. */
typedef struct {
  const vgeom* g;
  int kind[4096]; /* 0 feat, 1 geom, 2 ring, 3 coords, 4 ring end, 5 geom end, 6 feat end */
  int node[4096];
  int n, at, fail_at;
  uint32_t done;  /* coordinates of the current sequence reported */
} expect;
static void plan1(expect* e, int k, int node) {
  if (e->n < 4096) { e->kind[e->n] = k; e->node[e->n] = node; e->n++; }
}
static int plan(expect* e, int i, int* used) { /* 0, or an error from here on */
  if (i >= e->g->n) return 1;
  const struct GeoArrowGeometryNode* n = e->g->nodes + i;
  *used = 1;
  plan1(e, 1, i);
  if (n->geometry_type < 1 || n->geometry_type > 7) return 1;
  if (n->geometry_type <= 2) {
    plan1(e, 3, i);
  } else if (n->geometry_type == 3) {
    if ((uint64_t)n->size > (uint64_t)(e->g->n - i - 1)) return 1;
    for (uint32_t c = 0; c < n->size; c++) { plan1(e, 2, i + 1 + c); plan1(e, 3, i + 1 + c); plan1(e, 4, i + 1 + c); }
    *used += n->size;
  } else {
    for (uint32_t c = 0; c < n->size; c++) {
      int u = 0;
      if (plan(e, i + *used, &u)) return 1;
      *used += u;
    }
  }
  plan1(e, 5, i);
  return 0;
}
static int step(struct GeoArrowVisitor* v, int kind) {
  expect* e = (expect*)v->private_data;
  if (e->at < e->n && e->kind[e->at] == 3 && kind != 3) {
    VPR_CHECK(e->done == e->g->nodes[e->node[e->at]].size, "only %u coordinates reported", e->done);
    e->at++;
    e->done = 0;
  }
  VPR_CHECK(e->at < e->n && e->kind[e->at] == kind, "event %d where %d is due", kind, e->at < e->n ? e->kind[e->at] : -1);
  if (e->fail_at >= 0) {
    if (e->fail_at == 0) { e->fail_at = -2; return 77; }
    e->fail_at--;
  }
  VPR_CHECK(e->fail_at != -2, "an event after a failed one");
  if (kind != 3) e->at++;
  return GEOARROW_OK;
}
static int x_feat(struct GeoArrowVisitor* v) { return step(v, 0); }
static int x_null(struct GeoArrowVisitor* v) { VPR_FAIL("null_feat"); }
static int x_geom(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  expect* e = (expect*)v->private_data;
  int rc = step(v, 1);
  if (rc == 0) {
    const struct GeoArrowGeometryNode* n = e->g->nodes + e->node[e->at - 1];
    VPR_CHECK((int)t == n->geometry_type && (int)d == n->dimensions, "geom_start with type %d dimensions %d", t, d);
  }
  return rc;
}
static int x_ring(struct GeoArrowVisitor* v) { return step(v, 2); }
static int x_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  expect* e = (expect*)v->private_data;
  int rc = step(v, 3);
  if (rc) return rc;
  const struct GeoArrowGeometryNode* n = e->g->nodes + e->node[e->at];
  VPR_CHECK(c->n_values == vg_nd(n->dimensions) && c->n_coords >= 0 && c->n_coords * c->n_values <= 384, "a chunk of %d coordinates of %d values", (int)c->n_coords, c->n_values);
  VPR_CHECK(e->done + c->n_coords <= n->size, "too many coordinates");
  for (int64_t i = 0; i < c->n_coords; i++)
    for (int j = 0; j < c->n_values; j++)
      VPR_CHECK(vg_bits(c->values[j] + i * c->coords_stride) == vg_ord(n, j, e->done + i), "ordinate %d of coordinate %d", j, (int)(e->done + i));
  e->done += c->n_coords;
  return GEOARROW_OK;
}
static int x_ring_end(struct GeoArrowVisitor* v) { return step(v, 4); }
static int x_geom_end(struct GeoArrowVisitor* v) { return step(v, 5); }
static int x_feat_end(struct GeoArrowVisitor* v) { return step(v, 6); }
int vp_case(vpr* r) {
  static expect e;
  vgeom g;
  vg_gen(r, &g, 1);
  int work = g.n > 1;
  if (vpr_p(r, 10) && g.nodes[0].geometry_type <= 2) { /* long sequences around the chunk size */
    static const int len[] = {95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 577};
    vg_free(&g);
    g.n = 1;
    memset(g.nodes, 0, sizeof(g.nodes[0]));
    g.nodes[0].geometry_type = 2;
    g.nodes[0].dimensions = vpr_in(r, 1, 4);
    vg_coords(r, g.nodes, g.own, len[vpr_in(r, 0, 15)], 1);
  }
  if (vpr_p(r, 35)) { /* counts that ask for more or fewer nodes */
    for (int q = vpr_in(r, 1, 3); q > 0; q--) {
      int i = vpr_in(r, 0, g.n - 1);
      if (g.nodes[i].geometry_type > 2) g.nodes[i].size = vpr_p(r, 80) ? vpr_in(r, 0, 5) : gen_count(r);
      else if (vpr_p(r, 20)) { g.nodes[i].geometry_type = vpr_in(r, 3, 7); g.nodes[i].size = vpr_in(r, 0, 2); }
      else if (vpr_p(r, 20)) { g.nodes[i].geometry_type = vpr_p(r, 50) ? 0 : vpr_in(r, 8, 255); }
    }
    if (vpr_p(r, 30)) g.n = vpr_in(r, 0, g.n);
    for (int i = 0; i < g.n; i++) /* only sequences have storage of their own */
      if (g.nodes[i].geometry_type > 2 || g.nodes[i].geometry_type == 0)
        for (int j = 0; j < 4; j++) { g.nodes[i].coords[j] = _GeoArrowkEmptyPointCoords; g.nodes[i].coord_stride[j] = 0; }
      else if (g.nodes[i].coords[0] == _GeoArrowkEmptyPointCoords) for (int j = 0; j < 4; j++) g.nodes[i].coord_stride[j] = 0;
    for (int i = 0; i < g.n; i++) if (g.nodes[i].size > 100000) g.nodes[i].size = i == 0 ? g.nodes[i].size : g.nodes[i].size % 1000 + 100;
  }
  memset(&e, 0, sizeof(e));
  e.g = &g;
  e.fail_at = -1;
  plan1(&e, 0, 0);
  int used = 0, bad = plan(&e, 0, &used);
  if (!bad && used != g.n) bad = 1;
  else if (!bad) plan1(&e, 6, 0);
  if (e.n < 4000) {
    if (vpr_p(r, 20)) e.fail_at = vpr_in(r, 0, e.n);
    int will = e.fail_at;
    struct GeoArrowVisitor v = {&x_feat, &x_null, &x_geom, &x_ring, &x_coords, &x_ring_end, &x_geom_end, &x_feat_end, &e, NULL};
    struct GeoArrowGeometryNode* exact = (struct GeoArrowGeometryNode*)vpr_dup(g.nodes, g.n * sizeof(g.nodes[0]));
    struct GeoArrowGeometryView view = {exact, g.n};
    int rc;
    if (vpr_p(r, 50)) {
      rc = GeoArrowGeometryViewVisit(view, &v);
    } else {
      struct GeoArrowGeometry geom;
      VPR_CHECK(GeoArrowGeometryInit(&geom) == GEOARROW_OK, "init");
      VPR_CHECK(GeoArrowGeometryShallowCopy(view, &geom) == GEOARROW_OK, "shallow copy");
      rc = GeoArrowGeometryVisit(&geom, &v);
      GeoArrowGeometryReset(&geom);
    }
    free(exact);
    if (will >= 0 && e.fail_at == -2) VPR_CHECK(rc == 77, "a failing callback's code is lost (%d)", rc);
    else if (bad) VPR_CHECK(rc != GEOARROW_OK, "an inconsistent list of nodes is accepted");
    else {
      VPR_CHECK(rc == GEOARROW_OK, "a consistent list of nodes is refused (%d)", rc);
      VPR_CHECK(e.at == e.n, "the visit stopped early");
    }
  }
  vg_free(&g);
  return work;
}
#else
int vp_case(vpr* r) {
  struct GeoArrowGeometry a, b;
  VPR_CHECK(GeoArrowGeometryInit(&a) == GEOARROW_OK && GeoArrowGeometryInit(&b) == GEOARROW_OK, "init");
  int rounds = vpr_in(r, 1, 4), work = 0;
  if (vpr_p(r, 8)) vpr_fail_in = vpr_in(r, 1, 8);
  for (int k = 0; k < rounds; k++) {
    vgeom g, ref;
    vg_gen(r, &g, 1);
    for (int i = 0; i < g.n; i++) if (g.nodes[i].geometry_type > 2 && vpr_p(r, 20)) g.nodes[i].flags = vpr_u8(r);
    int could = vpr_fail_in > 0;
    int rc = GeoArrowGeometryShallowCopy(vg_view(&g), &a);
    VPR_CHECK(rc == GEOARROW_OK || (rc == ENOMEM && could), "shallow copy");
    if (!rc) VPR_CHECK(a.size_nodes == g.n && memcmp(a.root, g.nodes, g.n * sizeof(g.nodes[0])) == 0, "a shallow copy differs");
    rc = GeoArrowGeometryDeepCopy(vg_view(&g), &b);
    VPR_CHECK(rc == GEOARROW_OK || (rc == ENOMEM && could), "deep copy");
    if (!rc) {
      /* a reference copy, then the source goes away */
      memcpy(&ref, &g, sizeof(g));
      for (int i = 0; i < g.n; i++) {
        ref.own[i] = NULL;
        int nd = vg_nd(g.nodes[i].dimensions);
        if (g.nodes[i].geometry_type > 2 || !g.nodes[i].size) continue;
        ref.own[i] = malloc(8 * nd * g.nodes[i].size);
        for (uint32_t c = 0; c < g.nodes[i].size; c++)
          for (int j = 0; j < nd; j++) { uint64_t u = vg_ord(g.nodes + i, j, c); memcpy(ref.own[i] + 8 * (c * nd + j), &u, 8); }
        for (int j = 0; j < nd; j++) { ref.nodes[i].coords[j] = ref.own[i] + 8 * j; ref.nodes[i].coord_stride[j] = 8 * nd; }
        ref.nodes[i].flags &= ~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
      }
      for (int i = 0; i < g.n; i++) { if (g.own[i]) memset(g.own[i], 0x5a, 8); free(g.own[i]); }
      same_tree(b.root, b.size_nodes, &ref, "deep copy");
      for (int i = 0; i < g.n; i++) VPR_CHECK((b.root[i].flags | 1) == (g.nodes[i].flags | 1) && b.root[i].user_data == g.nodes[i].user_data, "flags or user data of node %d", i);
      vg_free(&ref);
      work |= g.n > 1;
    } else {
      vg_free(&g);
    }
    if (vpr_p(r, 50)) vpr_fail_in = 0;
  }
  vpr_fail_in = 0;
  GeoArrowGeometryReset(&a);
  GeoArrowGeometryReset(&b);
  return work;
}
#endif
