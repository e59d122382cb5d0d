/* Shared generators. */
#ifndef VP_GEN_H
#define VP_GEN_H
#include "vpr.h"
typedef struct {
  uint8_t* p;
  size_t n, cap;
} vbuf;
static inline void vb_put(vbuf* b, const void* p, size_t n) {
  if (b->n + n > b->cap) {
    b->cap = (b->n + n) * 2 + 64;
    b->p = (uint8_t*)realloc(b->p, b->cap);
  }
  if (n) memcpy(b->p + b->n, p, n);
  b->n += n;
}
static inline void vb_u8(vbuf* b, uint8_t v) { vb_put(b, &v, 1); }
static inline void vb_u32(vbuf* b, uint32_t v, int big) {
  uint8_t t[4];
  for (int i = 0; i < 4; i++) t[big ? 3 - i : i] = (uint8_t)(v >> (8 * i));
  vb_put(b, t, 4);
}
static inline void vb_f64(vbuf* b, double d, int big) {
  uint64_t v;
  uint8_t t[8];
  memcpy(&v, &d, 8);
  for (int i = 0; i < 8; i++) t[big ? 7 - i : i] = (uint8_t)(v >> (8 * i));
  vb_put(b, t, 8);
}
static inline void gen_wkb_coords(vpr* r, vbuf* b, uint32_t n, int nd, int big) {
  for (uint64_t i = 0; i < (uint64_t)n * nd && b->n < 20000; i++) vb_f64(b, vpr_double(r), big);
}
static inline uint32_t gen_count(vpr* r) {
  uint8_t k = vpr_u8(r);
  if (k < 160) return k % 4;
  if (k < 200) return k % 9;
  if (k < 204) return 60 + k % 80;
  if (k == 204) return 0xffffffffu;
  if (k == 205) return 0x10000000u;
  if (k == 206) return 0x80000000u;
  if (k == 207) return 0x20000000u;
  if (k == 208) return 0xffffffffu / 24 + 1;
  if (k == 209) return vpr_u32(r);
  return k % 3;
}
/* A WKB geometry, mostly well formed. */
static inline void gen_wkb(vpr* r, vbuf* b, int depth, int wild) {
  if (b->n > 8000) return;
  int big = vpr_p(r, 40);
  vb_u8(b, wild && vpr_p(r, 3) ? vpr_u8(r) : !big);
  uint32_t type = depth > 3 ? vpr_in(r, 1, 3) : vpr_in(r, 1, 7);
  int dims = vpr_in(r, 0, 3);
  uint32_t code = type;
  int how = vpr_in(r, 0, 3);
  if (how == 0) {
    if (dims & 1) code |= 0x80000000u;
    if (dims & 2) code |= 0x40000000u;
  } else if (how == 1 && dims) {
    /* both at once */
    code += dims * 1000u;
    if (dims & 1) code |= 0x80000000u;
    if (dims & 2) code |= 0x40000000u;
  } else {
    code += dims * 1000u;
  }
  int nd = 2 + (dims & 1) + ((dims >> 1) & 1);
  int srid = vpr_p(r, 15);
  if (srid) code |= 0x20000000u;
  if (wild && vpr_p(r, 3)) {
    static const uint32_t odd[] = {0, 8, 9, 999, 1000, 1008, 2000, 3000, 3008, 4001, 5003, 0x10000001u, 17, 0xffffffffu, 3256, 1256, 256, 257, 999, 0x1fff0001u, 0x4003, 4255, 3993};
    code = odd[vpr_in(r, 0, 22)];
  }
  vb_u32(b, code, big);
  if (srid) vb_u32(b, vpr_u32(r), big);
  if (type == 1) {
    gen_wkb_coords(r, b, 1, nd, big);
    return;
  }
  uint32_t n = wild ? gen_count(r) : vpr_in(r, 0, 4);
  vb_u32(b, n, big);
  if (n > 200) n = vpr_in(r, 0, 3);
  if (type == 2) {
    gen_wkb_coords(r, b, n, nd, big);
  } else if (type == 3) {
    for (uint32_t i = 0; i < n && b->n < 8000; i++) {
      uint32_t m = wild ? gen_count(r) : vpr_in(r, 0, 6);
      vb_u32(b, m, big);
      if (m > 200) m = vpr_in(r, 0, 3);
      gen_wkb_coords(r, b, m, nd, big);
    }
  } else {
    for (uint32_t i = 0; i < n && b->n < 8000; i++) gen_wkb(r, b, depth + 1, wild);
  }
}
/* Any blob: well formed, damaged, deep, or raw. */
static inline void gen_blob(vpr* r, vbuf* b) {
  int mode = vpr_in(r, 0, 15);
  if (mode == 0) {
    size_t n = vpr_in(r, 0, 80);
    for (size_t i = 0; i < n; i++) vb_u8(b, vpr_u8(r));
    return;
  }
  if (mode == 1) { /* a deep tower of collections */
    static const int lv[] = {3, 31, 32, 33, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300, 512, 700};
    int d = lv[vpr_in(r, 0, 15)];
    if (d == 700 && vpr_p(r, 30)) d = 200000; /* more than the stack takes */
    int t = vpr_in(r, 4, 7);
    for (int i = 0; i < d; i++) {
      int big = vpr_p(r, 20);
      vb_u8(b, !big);
      vb_u32(b, t, big);
      vb_u32(b, 1, big);
    }
    gen_wkb(r, b, 3, 0);
    return;
  }
  gen_wkb(r, b, 0, mode >= 6);
  if (mode == 14 && b->n) { b->n -= vpr_in(r, 0, b->n > 40 ? 40 : b->n); }
  if (mode == 13 && b->n) { b->p[vpr_in(r, 0, b->n - 1)] = vpr_u8(r); }
  if (mode == 12) { int k = vpr_in(r, 1, 9); while (k--) vb_u8(b, vpr_u8(r)); }
  if (mode == 15 && b->n > 4) { b->n = vpr_in(r, 0, b->n); }
}
#endif
