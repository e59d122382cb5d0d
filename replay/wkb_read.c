/* C01, C02: reading WKB. Oracle: an independent recursive decoder. */
#include "vpr.h"
#include "gen.h"
#include "geoarrow/geoarrow.h"

typedef struct {
  int type, dims, nd, swap, level;
  uint32_t size;
  size_t at; /* of the coordinates */
} onode;
static onode* on;
static size_t on_n, on_cap;
static const uint8_t* B;
static size_t BN;

static onode* on_new(void) {
  if (on_n == on_cap) { on_cap = on_cap * 2 + 256; on = realloc(on, on_cap * sizeof(onode)); }
  memset(&on[on_n], 0, sizeof(onode));
  return &on[on_n++];
}
static int native(void) { uint16_t x = 1; uint8_t b; memcpy(&b, &x, 1); return b; }
static uint32_t rd(size_t at, int big) {
  const uint8_t* q = B + at;
  return big ? (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3] : (uint32_t)q[3] << 24 | q[2] << 16 | q[1] << 8 | q[0];
}
/* 0 = accepted */
static int dec(size_t* p, size_t ix, int level) {
  if (BN - *p < 5) return 1;
  int swap = B[*p] != native();
  int big = native() ? swap : !swap;
  uint32_t code = rd(*p + 1, big);
  *p += 5;
  if (code & 0x20000000u) {
    if (BN - *p < 4) return 1;
    *p += 4;
  }
  int z = !!(code & 0x80000000u), m = !!(code & 0x40000000u);
  uint32_t t = code & 0xffff;
  if (t >= 3000) { t -= 3000; z = m = 1; } else if (t >= 2000) { t -= 2000; m = 1; } else if (t >= 1000) { t -= 1000; z = 1; }
  uint32_t n = 1;
  if (t != 1) {
    if (BN - *p < 4) return 1;
    n = rd(*p, big);
    *p += 4;
  }
  if (t < 1 || t > 7) return 1;
  int nd = 2 + z + m, dims = z && m ? 4 : m ? 3 : z ? 2 : 1;
  onode* o = &on[ix];
  o->type = t; o->dims = dims; o->nd = nd; o->swap = swap; o->level = level; o->size = n; o->at = *p;
  if (t <= 2) {
    if ((uint64_t)n * nd * 8 > BN - *p) return 1;
    *p += (size_t)n * nd * 8;
    return 0;
  }
  if (level == 255) return 1;
  for (uint32_t i = 0; i < n; i++) {
    if (t == 3) {
      if (BN - *p < 4) return 1;
      uint32_t k = rd(*p, big);
      *p += 4;
      onode* c = on_new();
      c->type = 2; c->dims = dims; c->nd = nd; c->swap = swap; c->level = level + 1; c->size = k; c->at = *p;
      if ((uint64_t)k * nd * 8 > BN - *p) return 1;
      *p += (size_t)k * nd * 8;
    } else {
      size_t c = on_n;
      on_new();
      if (dec(p, c, level + 1)) return 1;
    }
  }
  return 0;
}

int vp_case(vpr* r) {
  struct GeoArrowWKBReader reader;
  if (GeoArrowWKBReaderInit(&reader)) return 0;
  int rounds = vpr_in(r, 1, 3), nontrivial = 0;
  for (int k = 0; k < rounds; k++) {
    vbuf b = {0};
    gen_blob(r, &b);
    uint8_t* d = vpr_dup(b.p, b.n);
    B = d; BN = b.n; on_n = 0;
    struct GeoArrowBufferView src = {d, (int64_t)b.n};
    struct GeoArrowGeometryView v;
    struct GeoArrowError err;
    memset(&v, 0, sizeof(v));
    err.message[0] = 0;
    int rc = GeoArrowWKBReaderRead(&reader, src, &v, vpr_p(r, 80) ? &err : NULL);
    if (rc == GEOARROW_OK) {
      nontrivial = 1;
      for (int64_t i = 0; i < v.size_nodes; i++) {
        const struct GeoArrowGeometryNode* nd = v.root + i;
        if (nd->geometry_type != 1 && nd->geometry_type != 2) continue;
        int dims = nd->dimensions == 1 ? 2 : nd->dimensions == 4 ? 4 : 3;
        for (int j = 0; j < dims && nd->size > 0; j++) {
          uint64_t off = (uint64_t)(nd->coords[j] - d);
          VPR_CHECK(nd->coord_stride[j] >= 0 && nd->coords[j] >= d && off + 8 <= b.n &&
                        (uint64_t)(nd->size - 1) * (uint64_t)nd->coord_stride[j] <= b.n - off - 8,
                    "node %d: a coordinate lies outside the blob", (int)i);
        }
      }
    }
#ifdef VP_C02
    on_new();
    size_t p = 0;
    int bad = dec(&p, 0, 0);
    VPR_CHECK(bad == (rc != GEOARROW_OK), "blob of %zu bytes: reader returned %d, the header says %s", b.n, rc, bad ? "reject" : "accept");
    if (!bad) {
      VPR_CHECK((int64_t)on_n == v.size_nodes, "%lld nodes, expected %zu", (long long)v.size_nodes, on_n);
      for (size_t i = 0; i < on_n; i++) {
        const struct GeoArrowGeometryNode* nd = v.root + i;
        VPR_CHECK(nd->geometry_type == on[i].type, "node %zu type %d expected %d", i, nd->geometry_type, on[i].type);
        VPR_CHECK(nd->dimensions == on[i].dims, "node %zu dimensions %d expected %d", i, nd->dimensions, on[i].dims);
        VPR_CHECK(nd->size == on[i].size, "node %zu size %u expected %u", i, nd->size, on[i].size);
        VPR_CHECK(nd->level == on[i].level, "node %zu level %d expected %d", i, nd->level, on[i].level);
        VPR_CHECK(!!(nd->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) == on[i].swap, "node %zu byte order", i);
        if (on[i].type <= 2 && on[i].size > 0)
          for (int j = 0; j < on[i].nd; j++)
            VPR_CHECK(nd->coords[j] == d + on[i].at + 8 * j && nd->coord_stride[j] == 8 * on[i].nd, "node %zu: coordinates misplaced", i);
      }
    }
#endif
    free(d);
    free(b.p);
  }
  GeoArrowWKBReaderReset(&reader);
  return nontrivial;
}
