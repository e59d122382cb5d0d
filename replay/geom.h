/* Random geometries (node lists), their ordinates, and the events they stand for. */
#ifndef VP_GEOM_H
#define VP_GEOM_H
#include "gen.h"
#include "geoarrow/geoarrow.h"
#define VG_MAX 96
typedef struct {
  struct GeoArrowGeometryNode nodes[VG_MAX];
  uint8_t* own[VG_MAX];
  int n;
} vgeom;
static inline int vg_nd(int dims) { return dims == 4 ? 4 : dims == 2 || dims == 3 ? 3 : 2; }
static inline uint64_t vg_bits(const void* p) { uint64_t u; memcpy(&u, p, 8); return u; }
static inline uint64_t vg_ord(const struct GeoArrowGeometryNode* n, int j, uint32_t i) {
  uint64_t u = vg_bits(n->coords[j] + (int64_t)n->coord_stride[j] * i);
  return n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN ? __builtin_bswap64(u) : u;
}
static inline double vg_double(const struct GeoArrowGeometryNode* n, int j, uint32_t i) {
  uint64_t u = vg_ord(n, j, i);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
/* Coordinate storage of a sequence node: interleaved, separated, constant or odd strides. */
static inline void vg_coords(vpr* r, struct GeoArrowGeometryNode* nd, uint8_t** own, uint32_t size, int raw) {
  int n = vg_nd(nd->dimensions), how = vpr_in(r, 0, 3);
  nd->size = size;
  nd->flags = vpr_p(r, 35) ? GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN : 0;
  *own = NULL;
  for (int j = 0; j < 4; j++) { nd->coords[j] = _GeoArrowkEmptyPointCoords; nd->coord_stride[j] = 0; }
  if (!size) return;
  size_t total = 8u * n * size;
  if (how == 0) {
    *own = (uint8_t*)malloc(total);
    for (int j = 0; j < n; j++) { nd->coords[j] = *own + 8 * j; nd->coord_stride[j] = 8 * n; }
  } else if (how == 1) {
    *own = (uint8_t*)malloc(total);
    for (int j = 0; j < n; j++) { nd->coords[j] = *own + 8 * j * size; nd->coord_stride[j] = 8; }
  } else {
    total = 64 + 32 * (size_t)size;
    *own = (uint8_t*)malloc(total);
    for (int j = 0; j < n; j++) {
      int st = how == 2 ? 0 : (int)vpr_in(r, -20, 20);
      nd->coord_stride[j] = st;
      nd->coords[j] = *own + (st < 0 ? total - 8 - vpr_in(r, 0, 10) : vpr_in(r, 0, 10));
    }
  }
  for (size_t i = 0; i < total; i++) (*own)[i] = vpr_u8(r);
  if (!raw && how < 2)
    for (size_t i = 0; i + 8 <= total; i += 8) {
      double d = vpr_double(r);
      uint64_t u;
      memcpy(&u, &d, 8);
      if (nd->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) u = __builtin_bswap64(u);
      memcpy(*own + i, &u, 8);
    }
}
static inline uint32_t vg_len(vpr* r) {
  uint8_t k = vpr_u8(r);
  return k < 200 ? k % 5 : k < 240 ? k % 12 : k < 252 ? 62 + k % 6 : 120 + k % 20;
}
/* Appends the subtree of a geometry of that type. */
static inline void vg_tree(vpr* r, vgeom* g, int type, int dims, int level, int mixed) {
  if (g->n >= VG_MAX) return;
  struct GeoArrowGeometryNode* nd = g->nodes + g->n;
  uint8_t** own = g->own + g->n;
  g->n++;
  memset(nd, 0, sizeof(*nd));
  for (int j = 0; j < 4; j++) nd->coords[j] = _GeoArrowkEmptyPointCoords;
  *own = NULL;
  nd->geometry_type = type;
  nd->dimensions = dims;
  nd->level = level;
  if (type <= 2) {
    vg_coords(r, nd, own, type == 1 ? vpr_p(r, 80) : vg_len(r), 0);
    return;
  }
  int want = vpr_in(r, 0, level > 3 ? 1 : 3), got = 0;
  for (; got < want && g->n < VG_MAX - 4; got++) {
    int t = type <= 3 ? 2 : type == 7 ? (level > 4 ? vpr_in(r, 1, 3) : vpr_in(r, 1, 7)) : type - 3;
    vg_tree(r, g, t, mixed && type == 7 && vpr_p(r, 30) ? vpr_in(r, 1, 4) : dims, level + 1, mixed);
  }
  nd->size = got;
}
static inline void vg_gen(vpr* r, vgeom* g, int mixed) {
  g->n = 0;
  vg_tree(r, g, vpr_in(r, 1, 7), vpr_in(r, 1, 4), 0, mixed);
}
static inline void vg_free(vgeom* g) {
  for (int i = 0; i < g->n; i++) free(g->own[i]);
  g->n = 0;
}
static inline struct GeoArrowGeometryView vg_view(const vgeom* g) {
  struct GeoArrowGeometryView v = {g->nodes, g->n};
  return v;
}
/* Number of nodes of the subtree at i. */
static inline int vg_span(const vgeom* g, int i) {
  int k = 1;
  if (g->nodes[i].geometry_type > 2)
    for (uint32_t c = 0; c < g->nodes[i].size; c++) k += vg_span(g, i + k);
  return k;
}
/* ISO WKB of the subtree at i; returns the number of nodes. */
static inline int vg_wkb(const vgeom* g, int i, vbuf* out, int ring) {
  const struct GeoArrowGeometryNode* n = g->nodes + i;
  int nd = vg_nd(n->dimensions), k = 1;
  if (!ring) {
    vb_u8(out, 1);
    vb_u32(out, n->geometry_type + 1000 * (n->dimensions - 1), 0);
  }
  if (ring || n->geometry_type != 1) vb_u32(out, n->size, 0);
  if (ring || n->geometry_type <= 2) {
    for (uint32_t c = 0; c < n->size; c++)
      for (int j = 0; j < nd; j++) { uint64_t u = vg_ord(n, j, c); vb_put(out, &u, 8); }
    if (!ring && n->geometry_type == 1 && !n->size) {
      uint64_t nan = 0x7ff8000000000000ULL;
      for (int j = 0; j < nd; j++) vb_put(out, &nan, 8);
    }
    return 1;
  }
  for (uint32_t c = 0; c < n->size; c++) k += vg_wkb(g, i + k, out, n->geometry_type == 3);
  return k;
}
/* Reports coordinates [from, from + n) of a sequence as a view with some stride. */
typedef struct {
  struct GeoArrowCoordView v;
  double* own;
} vview;
static inline void vv_make(vpr* r, const struct GeoArrowGeometryNode* nd, uint32_t from, uint32_t n, vview* o) {
  int c = vg_nd(nd->dimensions), inter = vpr_u8(r) & 1;
  memset(o, 0, sizeof(*o));
  o->own = (double*)malloc(8u * c * n + 1);
  o->v.n_coords = n;
  o->v.n_values = c;
  o->v.coords_stride = inter ? c : 1;
  for (int j = 0; j < c; j++) {
    o->v.values[j] = o->own + (inter ? j : (size_t)j * n);
    for (uint32_t i = 0; i < n; i++) {
      uint64_t u = vg_ord(nd, j, from + i);
      memcpy((double*)o->v.values[j] + (size_t)i * o->v.coords_stride, &u, 8);
    }
  }
}
/* The events of the subtree at i, coordinates in chunks of any size. Returns the code of the
 * first event that fails; *k is the number of nodes. */
static inline int vg_visit(vpr* r, struct GeoArrowVisitor* v, const vgeom* g, int i, int ring, int* k) {
  const struct GeoArrowGeometryNode* n = g->nodes + i;
  int rc = ring ? v->ring_start(v) : v->geom_start(v, (enum GeoArrowGeometryType)n->geometry_type, (enum GeoArrowDimensions)n->dimensions);
  *k = 1;
  if (rc) return rc;
  if (n->geometry_type <= 2) {
    for (uint32_t at = 0; at < n->size;) {
      uint32_t m = vpr_p(r, 60) ? n->size - at : (uint32_t)vpr_in(r, 1, n->size - at);
      vview o;
      vv_make(r, n, at, m, &o);
      rc = v->coords(v, &o.v);
      free(o.own);
      if (rc) return rc;
      at += m;
    }
  } else {
    for (uint32_t c = 0; c < n->size; c++) {
      int q = 0;
      rc = vg_visit(r, v, g, i + *k, n->geometry_type == 3, &q);
      if (rc) return rc;
      *k += q;
    }
  }
  return ring ? v->ring_end(v) : v->geom_end(v);
}
#endif
