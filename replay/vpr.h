/* Concrete replay of the contracts: every driver derives one case from a byte string and
 * checks the property's contract on the real code.  The same binary searches (libFuzzer,
 * fixed seed) and replays one file. */
#ifndef VPR_H
#define VPR_H
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const uint8_t* p;
  size_t n;
  uint64_t h;
  size_t used;
} vpr;
/* One choice byte; past the end of the string, a pseudo-random tail derived from it. */
static inline uint8_t vpr_u8(vpr* r) {
  if (r->used < r->n) {
    uint8_t b = r->p[r->used++];
    r->h = (r->h ^ b) * 0x100000001b3ULL;
    return b;
  }
  r->used++;
  r->h = r->h * 6364136223846793005ULL + 1442695040888963407ULL;
  return (uint8_t)(r->h >> 56);
}
static inline uint32_t vpr_u32(vpr* r) {
  uint32_t a = vpr_u8(r), b = vpr_u8(r), c = vpr_u8(r), d = vpr_u8(r);
  return a | b << 8 | c << 16 | d << 24;
}
static inline uint64_t vpr_u64(vpr* r) {
  uint64_t a = vpr_u32(r);
  return a << 32 | vpr_u32(r);
}
/* Uniform-ish in [lo, hi]. */
static inline int64_t vpr_in(vpr* r, int64_t lo, int64_t hi) {
  uint64_t span = (uint64_t)(hi - lo) + 1;
  if (span <= 256) return lo + (int64_t)(vpr_u8(r) % span);
  if (span <= 65536) return lo + (int64_t)((vpr_u8(r) | vpr_u8(r) << 8) % span);
  return lo + (int64_t)(vpr_u64(r) % span);
}
static inline int vpr_p(vpr* r, int percent) { return vpr_u8(r) % 100 < percent; }
static inline double vpr_double(vpr* r) {
  static const double k[] = {0.0, -0.0, 1, -1, 0.5, 30, 10, 1e300, -1e300, 1e-300, 123456789.125, 1.0 / 3, 100, 1e16, 2.5, 1e15};
  uint8_t a = vpr_u8(r);
  if (a < 96) return k[a % 16];
  if (a < 180) return (double)(int8_t)vpr_u8(r) + vpr_in(r, 0, 7) / 8.0;
  if (a < 190) return NAN;
  if (a < 200) return INFINITY;
  if (a < 208) return -INFINITY;
  uint64_t u = vpr_u64(r);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
#define VPR_FAIL(...)                                                             \
  do {                                                                            \
    fprintf(stderr, "VPFAIL %s:%d: ", __FILE__, __LINE__);                        \
    fprintf(stderr, __VA_ARGS__);                                                 \
    fprintf(stderr, "\n");                                                        \
    abort();                                                                      \
  } while (0)
#define VPR_CHECK(c, ...) do { if (!(c)) VPR_FAIL(__VA_ARGS__); } while (0)

/* The case; returns nonzero when it was a non-trivial one. */
int vp_case(vpr* r);

extern long vpr_fail_in;
extern uint64_t vpr_cases, vpr_nontrivial;
#ifdef VPR_MAIN
uint64_t vpr_cases = 0, vpr_nontrivial = 0;
long vpr_fail_in = 0;
static void vpr_bye(void) {
  const char* f = getenv("VPR_STATS");
  if (f) {
    FILE* o = fopen(f, "w");
    if (o) { fprintf(o, "%llu %llu\n", (unsigned long long)vpr_cases, (unsigned long long)vpr_nontrivial); fclose(o); }
  }
}
int LLVMFuzzerInitialize(int* argc, char*** argv) { (void)argc; (void)argv; atexit(vpr_bye); return 0; }
int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  vpr r = {data, size, 0xcbf29ce484222325ULL, 0};
  vpr_cases++;
  vpr_fail_in = 0;
  if (vp_case(&r)) vpr_nontrivial++;
  return 0;
}
#endif
#ifdef __cplusplus
}
#endif
/* Heap copies with exact bounds, so that any access outside is seen. */
static inline uint8_t* vpr_dup(const void* p, size_t n) {
  uint8_t* q = (uint8_t*)malloc(n ? n : 1);
  if (n) memcpy(q, p, n);
  if (!n) { free(q); q = (uint8_t*)malloc(0); }
  return q;
}
#endif
