/* C08: copies of coordinates against a plain recomputation. */
#include "gen.h"
#include "geoarrow/geoarrow.h"

static const char* NAMES[] = {"", "xy", "xyz", "xym", "xyzm"};
static int where(int from, int to, int c) {
  for (int j = 0; NAMES[from][j]; j++)
    if (NAMES[from][j] == NAMES[to][c]) return j;
  return -1;
}
static uint64_t bits(const void* p) { uint64_t u; memcpy(&u, p, 8); return u; }
static uint64_t swap(uint64_t x) { return __builtin_bswap64(x); }
static int isnan_bits(uint64_t x) { return (x & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (x & 0xfffffffffffffULL); }
static int nd(int d) { return (int)strlen(NAMES[d]); }

static int view_copy(vpr* r) {
  int sd = vpr_in(r, 1, 4), dd = vpr_in(r, 1, 4), ns = nd(sd), nt = nd(dd);
  int64_t srows = vpr_in(r, 0, 12), drows = vpr_in(r, 0, 12);
  int64_t soff = vpr_in(r, 0, srows), doff = vpr_in(r, 0, drows);
  int64_t n = vpr_in(r, -1, 12);
  if (n > srows - soff) n = srows - soff;
  if (n > drows - doff) n = drows - doff;
  int sl = vpr_in(r, 0, 2), dl = vpr_in(r, 0, 1);
  struct GeoArrowCoordView s = {0};
  struct GeoArrowWritableCoordView d = {0};
  uint64_t* sb[4] = {0};
  uint64_t* db[4] = {0};
  s.n_coords = srows;
  s.n_values = ns;
  s.coords_stride = sl == 0 ? 1 : sl == 1 ? ns : (int)vpr_in(r, ns, 7);
  d.size_coords = vpr_in(r, 0, 20);
  d.capacity_coords = drows;
  d.n_values = nt;
  d.coords_stride = dl ? nt : 1;
  if (sl == 0) {
    for (int j = 0; j < ns; j++) { sb[j] = malloc(8 * srows + 1); s.values[j] = (double*)sb[j]; for (int64_t i = 0; i < srows; i++) sb[j][i] = vpr_u64(r); }
  } else {
    int64_t m = srows * s.coords_stride;
    sb[0] = malloc(8 * m + 1);
    for (int64_t i = 0; i < m; i++) sb[0][i] = vpr_u64(r);
    for (int j = 0; j < ns; j++) s.values[j] = (double*)sb[0] + j;
  }
  if (dl == 0) {
    for (int j = 0; j < nt; j++) { db[j] = malloc(8 * drows + 1); d.values[j] = (double*)db[j]; for (int64_t i = 0; i < drows; i++) db[j][i] = 0x1111000000000000ULL + 16 * i + j; }
  } else {
    db[0] = malloc(8 * drows * nt + 1);
    for (int64_t i = 0; i < drows * nt; i++) db[0][i] = 0x1111000000000000ULL + 16 * (i / nt) + i % nt;
    for (int j = 0; j < nt; j++) d.values[j] = (double*)db[0] + j;
  }
  GeoArrowCoordViewCopy(&s, sd, soff, &d, dd, doff, n);
  for (int64_t i = 0; i < drows; i++)
    for (int c = 0; c < nt; c++) {
      uint64_t got = bits(d.values[c] + i * d.coords_stride);
      if (i < doff || i >= doff + n) {
        VPR_CHECK(got == 0x1111000000000000ULL + 16 * i + c, "row %d outside the range was changed", (int)i);
        continue;
      }
      int f = where(sd, dd, c);
      if (f < 0) VPR_CHECK(isnan_bits(got), "missing ordinate %d is not NaN", c);
      else VPR_CHECK(got == bits(s.values[f] + (soff + i - doff) * s.coords_stride), "ordinate %d of row %d is wrong (%s to %s)", c, (int)i, NAMES[sd], NAMES[dd]);
    }
  for (int j = 0; j < 4; j++) { free(sb[j]); free(db[j]); }
  return n > 0;
}
static void gen_node(vpr* r, struct GeoArrowGeometryNode* nd_, uint8_t** own, uint32_t size) {
  memset(nd_, 0, sizeof(*nd_));
  int dims = vpr_in(r, 1, 4), n = nd(dims);
  nd_->dimensions = dims;
  nd_->geometry_type = vpr_p(r, 80) ? vpr_in(r, 1, 2) : vpr_in(r, 0, 7);
  nd_->size = size;
  nd_->flags = vpr_p(r, 50) ? GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN : 0;
  if (vpr_p(r, 20)) nd_->flags |= 0xfe & vpr_u8(r);
  int how = vpr_in(r, 0, 3);
  size_t total = 8u * n * size + 64;
  *own = NULL;
  for (int j = 0; j < 4; j++) nd_->coords[j] = _GeoArrowkEmptyPointCoords;
  if (!size) return;
  if (how == 0) { /* interleaved */
    total = 8u * n * size;
    *own = malloc(total);
    for (int j = 0; j < n; j++) { nd_->coords[j] = *own + 8 * j; nd_->coord_stride[j] = 8 * n; }
  } else if (how == 1) { /* separated */
    total = 8u * n * size;
    *own = malloc(total);
    for (int j = 0; j < n; j++) { nd_->coords[j] = *own + 8 * j * size; nd_->coord_stride[j] = 8; }
  } else { /* anything: constant, unaligned, backwards */
    total = 64 + 32 * (size_t)size;
    *own = malloc(total);
    for (int j = 0; j < n; j++) {
      int st = how == 2 ? 0 : (int)vpr_in(r, -20, 20);
      nd_->coord_stride[j] = st;
      nd_->coords[j] = *own + (st < 0 ? total - 8 - vpr_in(r, 0, 10) : vpr_in(r, 0, 10));
    }
  }
  for (size_t i = 0; i < total; i++) (*own)[i] = vpr_u8(r);
}
static uint64_t ordinate(const struct GeoArrowGeometryNode* n, int j, uint32_t i) {
  uint64_t u = bits(n->coords[j] + (int64_t)n->coord_stride[j] * i);
  return n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN ? swap(u) : u;
}
static int write_sequence(vpr* r) {
  struct GeoArrowGeometryNode n;
  uint8_t* own;
  gen_node(r, &n, &own, vpr_in(r, 0, 9));
  int64_t need = 8LL * nd(n.dimensions) * n.size;
  int64_t cap = need + vpr_in(r, -9, 20);
  if (cap < 0) cap = 0;
  uint8_t* dst = malloc(cap);
  memset(dst, 0xa5, cap);
  /* a size that needs more than 32 bits is never written, but reported exactly */
  if (vpr_p(r, 10)) {
    struct GeoArrowGeometryNode big = n;
    big.size = 0xffffffffu - vpr_in(r, 0, 3);
    VPR_CHECK(GeoArrowGeometryNodeWriteSequence(&big, dst, cap) == 8LL * nd(n.dimensions) * big.size, "size of a huge sequence");
    for (int64_t i = 0; i < cap; i++) VPR_CHECK(dst[i] == 0xa5, "a sequence that does not fit was written");
  }
  int64_t got = GeoArrowGeometryNodeWriteSequence(&n, dst, cap);
  VPR_CHECK(got == need, "size reported is %lld, not %lld", (long long)got, (long long)need);
  if (need <= cap) {
    for (uint32_t i = 0; i < n.size; i++)
      for (int j = 0; j < nd(n.dimensions); j++)
        VPR_CHECK(bits(dst + 8 * ((size_t)i * nd(n.dimensions) + j)) == ordinate(&n, j, i), "ordinate %d of coordinate %u", j, i);
    for (int64_t i = need; i < cap; i++) VPR_CHECK(dst[i] == 0xa5, "written past the sequence");
  } else {
    for (int64_t i = 0; i < cap; i++) VPR_CHECK(dst[i] == 0xa5, "a sequence that does not fit was written");
  }
  free(dst);
  free(own);
  return n.size > 0;
}
static int generic(vpr* r) {
  struct GeoArrowGeometryNode n[8];
  uint8_t* own[8];
  int k = vpr_in(r, 0, 8), dims = vpr_in(r, 1, 4), c = nd(dims);
  int64_t total = 0;
  for (int i = 0; i < k; i++) {
    gen_node(r, n + i, own + i, vpr_in(r, 0, 5));
    if (n[i].geometry_type == 1 || n[i].geometry_type == 2) total += n[i].size;
  }
  struct GeoArrowGeometryView v = {n, k};
  VPR_CHECK(GeoArrowGeometryViewNumCoords(v) == total, "number of coordinates");
  int inter = vpr_in(r, 0, 1);
  size_t room = 8 * c * total;
  uint8_t* out = malloc(room);
  memset(out, 0xa5, room);
  uint8_t* cur[4] = {0};
  int32_t st[4] = {0};
  for (int j = 0; j < c; j++) { cur[j] = out + (inter ? 8 * j : 8 * j * total); st[j] = inter ? 8 * c : 8; }
  GeoArrowGeometryViewCopyCoordsGeneric(v, cur, st, dims);
  int64_t t = 0;
  for (int i = 0; i < k; i++) {
    if (n[i].geometry_type != 1 && n[i].geometry_type != 2) continue;
    for (uint32_t q = 0; q < n[i].size; q++, t++)
      for (int j = 0; j < c; j++) {
        uint64_t got = bits(out + (inter ? 8 * (t * c + j) : 8 * (j * total + t)));
        int f = where(n[i].dimensions, dims, j);
        if (f < 0) VPR_CHECK(isnan_bits(got), "missing ordinate is not NaN");
        else VPR_CHECK(got == ordinate(n + i, f, q), "ordinate %d of coordinate %d", j, (int)t);
      }
  }
  free(out);
  for (int i = 0; i < k; i++) free(own[i]);
  return total > 0;
}
int vp_case(vpr* r) {
  switch (vpr_in(r, 0, 2)) {
    case 0: return view_copy(r);
    case 1: return write_sequence(r);
    default: return generic(r);
  }
}
