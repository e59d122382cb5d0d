/* C21: the buffers of a builder. VP_NV ordinates, VP_INTER interleaved, VP_KIND the geometry type (0: serialized). */
#include "vp.h"
#include "geoarrow/geoarrow_type.h"
#ifndef VP_NV
#define VP_NV 2
#endif
#ifndef VP_INTER
#define VP_INTER 0
#endif
#ifndef VP_I
#define VP_I 1
#endif
#ifndef VP_KIND
#define VP_KIND 1
#endif
#ifndef VP_TYPE
#define VP_TYPE GEOARROW_TYPE_POINT
#endif
static void* vp_copy(void* dst, const void* src, size_t n);
static void vp_coord_copy(const struct GeoArrowCoordView* src, enum GeoArrowDimensions sd, int64_t so, struct GeoArrowWritableCoordView* dst, enum GeoArrowDimensions dd, int64_t dof, int64_t n);
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n);
static void* vp_malloc(int64_t n);
static void vp_free(void* p);
static void vp_buffer_reset(struct ArrowBuffer* b);
static struct ArrowBufferAllocator vp_deallocator(void (*f)(struct ArrowBufferAllocator*, uint8_t*, int64_t), void* p);
static ArrowErrorCode vp_init_array(struct ArrowArray* a, const struct ArrowSchema* s, struct ArrowError* e);
static struct ArrowBuffer* vp_array_buffer(struct ArrowArray* a, int64_t i);
static struct ArrowBitmap* vp_array_bitmap(struct ArrowArray* a);
static ArrowErrorCode vp_finish_array(struct ArrowArray* a, struct ArrowError* e);
static void vp_array_move(struct ArrowArray* src, struct ArrowArray* dst);
struct _GeoArrowFindBufferResult;
static int64_t vp_find(struct ArrowArray* a, struct _GeoArrowFindBufferResult* r, int64_t i, int level, int skip);
#include "geoarrow/builder.c"

static struct GeoArrowBuilder B;
static struct BuilderPrivate P;
static struct ArrowBuffer BUF[9];
static uint8_t* default_realloc(struct ArrowBufferAllocator* a, uint8_t* p, int64_t o, int64_t n) { return 0; }
static uint8_t* owned_realloc(struct ArrowBufferAllocator* a, uint8_t* p, int64_t o, int64_t n) { return 0; }
/* --- one buffer that is watched: a witness byte of what it holds --- */
static int64_t g_w;
static uint8_t g_wv;
static int64_t size(void) {
  int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= (int64_t)(VP_MAX_OBJ >> 2));
  return n;
}
/* nanoarrow: at least n more bytes, contents kept; or the buffer is emptied, its memory freed only if it was owned by someone else */
static ArrowErrorCode vp_reserve(struct ArrowBuffer* b, int64_t n) {
  VP_ASSERT(b->size_bytes >= 0 && b->size_bytes <= b->capacity_bytes, "size within capacity");
  if (n <= b->capacity_bytes - b->size_bytes) return 0;
  uint8_t* old = b->data;
  if (b->allocator.reallocate == &owned_realloc) {
    b->allocator.reallocate = &default_realloc;
    free(old);
    old = 0;
  }
  if (!old && b->data) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  if (vp_bool()) { b->data = 0; b->size_bytes = b->capacity_bytes = 0; return ENOMEM; }
  int64_t grown = b->capacity_bytes * 2, c = b->size_bytes + n;
  if (grown > c) c = grown;
  b->data = vp_alloc((size_t)c);
  if (old && g_w < b->capacity_bytes) VP_ASSUME(b->data[g_w] == old[g_w]);
  free(old);
  b->capacity_bytes = c;
  return 0;
}
/* a buffer in the state the builder keeps it in */
static void buffer(int i) {
  int64_t c = size(), s = vp_i64();
  VP_ASSUME(s >= 0 && s <= c);
  uint8_t* p = c > 0 ? vp_alloc((size_t)c) : 0;
  BUF[i].data = p;
  BUF[i].capacity_bytes = c;
  BUF[i].size_bytes = vp_i64();
  BUF[i].allocator.reallocate = vp_bool() ? &owned_realloc : &default_realloc;
  B.view.buffers[i].data.as_uint8 = p;
  B.view.buffers[i].capacity_bytes = c;
  B.view.buffers[i].size_bytes = s;
  P.buffers[i] = &BUF[i];
}
#define IN_STEP(i) (BUF[i].data == B.view.buffers[i].data.as_uint8 && BUF[i].capacity_bytes == B.view.buffers[i].capacity_bytes && B.view.buffers[i].size_bytes >= 0 && \
  B.view.buffers[i].size_bytes <= B.view.buffers[i].capacity_bytes && (BUF[i].capacity_bytes == 0 || (BUF[i].data != 0 && __CPROVER_w_ok(BUF[i].data, BUF[i].capacity_bytes))))
/* the copy of what is appended */
static const uint8_t* g_src;
static int64_t g_n, g_at;
static int g_i, g_copies;
static void* vp_copy(void* dst, const void* src, size_t n) {
  VP_ASSERT((const uint8_t*)src == g_src && n == (size_t)g_n && g_copies == 0, "the bytes given, once");
  if (n) VP_ASSERT(IN_STEP(g_i) && (uint8_t*)dst == BUF[g_i].data + g_at && (int64_t)n <= BUF[g_i].capacity_bytes - g_at, "into reserved space, after what is there");
  g_copies++;
  return dst;
}
void harness_append(void) {
  vp_init();
  B.private_data = &P;
  B.view.n_buffers = 9;
  const int i = VP_I;
  g_i = i;
  buffer(i);
  g_at = B.view.buffers[i].size_bytes;
  g_w = vp_i64();
  VP_ASSUME(g_w >= 0 && g_w < g_at);
  if (g_at) g_wv = BUF[i].data[g_w];
  const _Bool owned = BUF[i].allocator.reallocate == &owned_realloc, offsets = i > 0 && vp_bool();
  struct GeoArrowBufferView v;
  g_n = size();
  if (offsets) VP_ASSUME((g_n & 3) == 0 && (g_at & 3) == 0);
  v.size_bytes = g_n;
  g_src = v.data = vp_alloc(0);
  const int64_t cap = BUF[i].capacity_bytes;
  int rc;
  const _Bool reserve = vp_bool();
  if (reserve) rc = offsets ? GeoArrowBuilderOffsetReserve(&B, i - 1, g_n >> 2) : GeoArrowBuilderReserveBuffer(&B, i, g_n);
  else rc = offsets ? GeoArrowBuilderOffsetAppend(&B, i - 1, (const int32_t*)v.data, g_n >> 2) : GeoArrowBuilderAppendBuffer(&B, i, v);
  VP_ASSERT(IN_STEP(i), "size, capacity and memory of the buffer agree");
  if (rc) {
    VP_ASSERT(rc == ENOMEM && g_copies == 0, "nothing is written");
    if (owned) VP_ASSERT(BUF[i].data == 0 && B.view.buffers[i].size_bytes == 0, "the memory of another owner is gone");
    else VP_ASSERT(B.view.buffers[i].size_bytes == g_at && BUF[i].data[g_w] == g_wv, "a failed allocation changes nothing");
    VP_REACH("failed");
    return;
  }
  VP_ASSERT(B.view.buffers[i].size_bytes == g_at + (reserve ? 0 : g_n), "the size grows by what is appended");
  VP_ASSERT(B.view.buffers[i].capacity_bytes - g_at >= g_n, "the space is reserved");
  VP_ASSERT(g_copies == !reserve, "what is appended is copied once");
  if (g_at) VP_ASSERT(BUF[i].data[g_w] == g_wv, "every byte is preserved");
  VP_REACH("appended");
}

/* --- coordinates --- */
#define FIRST 3 /* of the buffers of coordinates */
#define NB (VP_INTER ? 1 : VP_NV)
static const struct GeoArrowCoordView* g_cv;
static int64_t g_sz;
static void vp_coord_copy(const struct GeoArrowCoordView* src, enum GeoArrowDimensions sd, int64_t so, struct GeoArrowWritableCoordView* dst, enum GeoArrowDimensions dd, int64_t dof, int64_t n) {
  VP_ASSERT(src == g_cv && so == 5 && (int)sd == 3 && (int)dd == 2 && n == g_n && g_copies == 0, "the coordinates given, once");
  VP_ASSERT(dst == &B.view.coords && dof == g_sz && dst->n_values == VP_NV && dst->coords_stride == (VP_INTER ? VP_NV : 1), "after what is there");
  for (int j = 0; j < VP_NV; j++) if (n) {
    VP_ASSERT(dst->values[j] == (double*)BUF[FIRST + (VP_INTER ? 0 : j)].data + (VP_INTER ? j : 0), "the memory of the buffers");
    VP_ASSERT(BUF[FIRST + (VP_INTER ? 0 : j)].capacity_bytes >> 3 >= (g_sz + n) * (VP_INTER ? VP_NV : 1), "into reserved space");
  }
  g_copies++;
}
static _Bool coords_ok(void) {
  _Bool ok = B.view.coords.size_coords >= 0 && B.view.coords.size_coords <= B.view.coords.capacity_coords && B.view.coords.n_values == VP_NV && B.view.coords.coords_stride == (VP_INTER ? VP_NV : 1);
  for (int j = 0; j < VP_NV; j++) {
    const int b = FIRST + (VP_INTER ? 0 : j);
    ok = ok && BUF[b].data == B.view.buffers[b].data.as_uint8 && BUF[b].capacity_bytes == B.view.buffers[b].capacity_bytes && BUF[b].capacity_bytes >= 0;
    ok = ok && BUF[b].capacity_bytes >> 3 >= B.view.coords.capacity_coords * (VP_INTER ? VP_NV : 1);
    ok = ok && (B.view.coords.capacity_coords == 0 || B.view.coords.values[j] == (double*)BUF[b].data + (VP_INTER ? j : 0));
    ok = ok && (BUF[b].capacity_bytes == 0 || (BUF[b].data != 0 && __CPROVER_w_ok(BUF[b].data, BUF[b].capacity_bytes)));
  }
  return ok;
}
void harness_coords(void) {
  vp_init();
  B.private_data = &P;
  B.view.n_buffers = FIRST + NB;
  B.view.schema_view.coord_type = VP_INTER ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  B.view.schema_view.dimensions = 2;
  B.view.coords.n_values = VP_NV;
  B.view.coords.coords_stride = VP_INTER ? VP_NV : 1;
  g_sz = B.view.coords.size_coords = size();
  B.view.coords.capacity_coords = size();
  for (int j = 0; j < NB; j++) {
    buffer(FIRST + j);
    BUF[FIRST + j].allocator.reallocate = &default_realloc;
  }
  for (int j = 0; j < VP_NV; j++) {
    const int b = FIRST + (VP_INTER ? 0 : j);
    B.view.coords.values[j] = B.view.coords.capacity_coords ? (double*)BUF[b].data + (VP_INTER ? j : 0) : (double*)vp_poison;
  }
  VP_ASSUME(coords_ok());
  g_w = vp_i64(); /* a byte of an ordinate that is there */
  const int wb = vp_int();
  VP_ASSUME(wb >= FIRST && wb < FIRST + NB && g_w >= 0 && g_w >> 3 < g_sz * (VP_INTER ? VP_NV : 1));
  if (g_sz) g_wv = BUF[wb].data[g_w];
  g_n = size();
  const int64_t cap = B.view.coords.capacity_coords;
  struct GeoArrowCoordView cv;
  g_cv = &cv;
  const _Bool reserve = vp_bool();
  int rc = reserve ? GeoArrowBuilderCoordsReserve(&B, g_n) : GeoArrowBuilderCoordsAppend(&B, &cv, 3, 5, g_n);
  VP_ASSERT(coords_ok(), "the coordinates lie in the reserved space of their buffers");
  VP_ASSERT(B.view.coords.size_coords == g_sz + (rc == 0 && !reserve ? g_n : 0), "the size grows by what is appended");
  if (g_sz) VP_ASSERT(BUF[wb].data[g_w] == g_wv, "every byte is preserved");
  VP_ASSERT(B.view.coords.capacity_coords >= cap || B.view.coords.capacity_coords >= g_sz + g_n, "capacity does not shrink below what is needed");
  if (rc) { VP_ASSERT(rc == ENOMEM && g_copies == 0, "nothing is written"); VP_REACH("failed"); return; }
  VP_ASSERT(B.view.coords.capacity_coords - g_sz >= g_n && g_copies == !reserve, "reserved, or copied once");
  VP_REACH("coords");
}

/* --- a buffer of the caller's --- */
static struct GeoArrowBufferDeallocatorPrivate DP;
static int g_made, g_resets, g_frees;
static _Bool g_live;
static void* vp_malloc(int64_t n) {
  VP_ASSERT(!g_live, "one allocation");
  if (vp_bool()) return 0;
  g_live = 1;
  if (n == sizeof(DP)) return &DP;
  VP_ASSERT(n == sizeof(P), "the size of what is made");
  return &P;
}
static void vp_free(void* p) {
  VP_ASSERT(g_live && (p == (void*)&DP || p == (void*)&P), "freed once");
  g_live = 0;
}
static void vp_buffer_reset(struct ArrowBuffer* b) {
  VP_ASSERT(b == &BUF[g_i] && g_resets == 0, "what the buffer held is released");
  g_resets++;
  b->data = 0;
  b->size_bytes = b->capacity_bytes = 0;
}
static void* g_dp;
static void (*g_df)(struct ArrowBufferAllocator*, uint8_t*, int64_t);
static struct ArrowBufferAllocator vp_deallocator(void (*f)(struct ArrowBufferAllocator*, uint8_t*, int64_t), void* p) {
  struct ArrowBufferAllocator a;
  a.reallocate = &owned_realloc;
  a.free = f;
  a.private_data = p;
  g_df = f;
  g_dp = p;
  return a;
}
static uint8_t* g_fp;
static int64_t g_fn;
static void* g_fd;
static void on_free(uint8_t* p, int64_t n, void* d) { g_fp = p; g_fn = n; g_fd = d; g_frees++; }
void harness_owned(void) {
  vp_init();
  B.private_data = &P;
  B.view.n_buffers = vp_i64();
  VP_ASSUME(B.view.n_buffers >= 1 && B.view.n_buffers <= 9);
  int64_t i = vp_i64();
  if (i >= 0 && i < 9) { g_i = (int)i; buffer(g_i); }
  struct GeoArrowBufferView v;
  v.size_bytes = size();
  v.data = vp_alloc(0);
  int64_t s0 = B.view.buffers[g_i].size_bytes;
  int rc = GeoArrowBuilderSetOwnedBuffer(&B, i, v, &on_free, vp_poison);
  if (i < 0 || i >= B.view.n_buffers) {
    VP_ASSERT(rc == EINVAL && !g_live && g_resets == 0, "there is no such buffer");
    VP_REACH("range");
    return;
  }
  if (rc) { VP_ASSERT(rc == ENOMEM && !g_live && g_resets == 0 && B.view.buffers[i].size_bytes == s0, "a failed allocation changes nothing"); return; }
  VP_ASSERT(g_resets == 1 && BUF[i].data == v.data && BUF[i].size_bytes == v.size_bytes && BUF[i].capacity_bytes == v.size_bytes, "the buffer is the caller's memory");
  VP_ASSERT(B.view.buffers[i].data.as_uint8 == v.data && B.view.buffers[i].size_bytes == v.size_bytes && B.view.buffers[i].capacity_bytes == v.size_bytes, "and so is the builder's view");
  VP_ASSERT(BUF[i].allocator.free == g_df && BUF[i].allocator.private_data == g_dp && g_dp == (void*)&DP && g_live, "released through the caller's function");
  BUF[i].allocator.free(&BUF[i].allocator, BUF[i].data, BUF[i].size_bytes);
  VP_ASSERT(g_frees == 1 && g_fp == v.data && g_fn == v.size_bytes && g_fd == (void*)vp_poison && !g_live, "released through the caller's function, once");
  VP_REACH("owned");
}

/* --- the tree of arrays, and finishing --- */
#define SERIAL (VP_KIND == 0)
#define BOX (VP_KIND == 990)
#define LEVELS (VP_KIND == 0 || VP_KIND == 1 || BOX ? 0 : VP_KIND == 2 || VP_KIND == 4 ? 1 : VP_KIND == 6 ? 3 : 2)
#define N_OFFSETS (SERIAL ? 1 : LEVELS)
#define N_BUFFERS (SERIAL ? 3 : 1 + LEVELS + NB)
static struct ArrowArray T[5], C[8];
static struct ArrowArray *KT[4][1], *KC[8];
static const void *PT[5][3], *PC[8][2];
static struct ArrowBitmap VB;
static int g_inits, g_finished, g_moved, g_released;
static void on_release(struct ArrowArray* a) { g_released++; a->release = 0; }
static void on_schema_release(struct ArrowSchema* s) { s->release = 0; }
static void tree(void);
static ArrowErrorCode vp_init_array(struct ArrowArray* a, const struct ArrowSchema* s, struct ArrowError* e) {
  VP_ASSERT(a == &P.array && s == &P.schema, "the builder's own array");
  VP_ASSERT(a->release == 0, "no array is lost");
  if (vp_bool()) return ENOMEM;
  g_inits++;
  tree();
  *a = T[0]; /* the root lives in the builder, the rest in the tree */
  return 0;
}
static void tree(void) {
  for (int l = 0; l <= LEVELS; l++) {
    T[l].length = T[l].null_count = T[l].offset = 0;
    T[l].n_buffers = SERIAL ? 3 : l < LEVELS ? 2 : 1;
    T[l].n_children = SERIAL ? 0 : l < LEVELS ? 1 : NB;
    T[l].buffers = PT[l];
    PT[l][0] = PT[l][1] = PT[l][2] = 0;
    if (l < LEVELS) { KT[l][0] = &T[l + 1]; T[l].children = KT[l]; }
    else T[l].children = KC;
    T[l].release = &on_release;
  }
  for (int j = 0; j < NB; j++) {
    C[j].length = 0;
    C[j].n_buffers = 2;
    C[j].n_children = 0;
    C[j].buffers = PC[j];
    C[j].release = &on_release;
    KC[j] = &C[j];
  }
}
/* the i-th buffer of the tree: validity and offsets from the root down, then the ordinates */
static int64_t vp_find(struct ArrowArray* a, struct _GeoArrowFindBufferResult* r, int64_t i, int level, int skip) {
  VP_ASSERT(a == &P.array && level == 0 && skip == 0 && r->array == 0, "the builder's own array is searched");
  for (int b = 0; b < N_BUFFERS; b++)
    if (i == b) {
      if (SERIAL || b == 0) { r->array = &P.array; r->level = 0; r->i = b; }
      else if (b <= LEVELS) { r->array = b == 1 ? &P.array : &T[b - 1]; r->level = b - 1; r->i = 1; }
      else { r->array = &C[b - 1 - LEVELS]; r->level = LEVELS + 1; r->i = 1; }
    }
  return 0;
}
void harness_find(void) {
  vp_init();
  tree();
  P.array = T[0];
  for (int b = 0; b <= N_BUFFERS; b++) {
    struct _GeoArrowFindBufferResult r, q;
    r.array = q.array = 0;
    _GeoArrowArrayFindBuffer(&P.array, &r, b, 0, 0);
    vp_find(&P.array, &q, b, 0, 0);
    VP_ASSERT(r.array == q.array && (b == N_BUFFERS ? r.array == 0 : r.level == q.level && r.i == q.i), "buffers are numbered from the root down");
  }
  VP_REACH("find");
}
/* where a buffer of the tree is: the number the type gives it */
static struct ArrowBuffer* vp_array_buffer(struct ArrowArray* a, int64_t i) {
  if (a == &P.array && i == 0) return &VB.buffer;
  if (SERIAL) { VP_ASSERT(a == &P.array && (i == 1 || i == 2), "a buffer of the array"); return &BUF[i]; }
  if (LEVELS > 0 && a == &P.array) { VP_ASSERT(i == 1, "the offsets of the array"); return &BUF[1]; }
  for (int l = 1; l < LEVELS; l++) if (a == &T[l]) { VP_ASSERT(i == 1, "the offsets of the array"); return &BUF[1 + l]; }
  for (int j = 0; j < NB; j++) if (a == &C[j]) { VP_ASSERT(i == 1, "the ordinates of the array"); return &BUF[1 + LEVELS + j]; }
  VP_ASSERT(0, "a buffer of the tree");
  return 0;
}
static struct ArrowBitmap* vp_array_bitmap(struct ArrowArray* a) { VP_ASSERT(a == &P.array, "the builder's own array"); return &VB; }
#define BUFFER(b) ((b) == 0 ? &VB.buffer : &BUF[b])
static int64_t g_size[9]; /* what each buffer must hold */
static _Bool g_any_validity;
static struct ArrowArray* at(int l) { return l == 0 ? &P.array : &T[l]; }
static ArrowErrorCode vp_finish_array(struct ArrowArray* a, struct ArrowError* e) {
  VP_ASSERT(a == &P.array && g_finished == 0, "the builder's own array is finished once");
  g_finished = 1;
  for (int b = 0; b < N_BUFFERS; b++) VP_ASSERT(BUFFER(b)->size_bytes == g_size[b], "each buffer has the size of what was appended");
  if (SERIAL) {
    const int w = VP_TYPE == GEOARROW_TYPE_LARGE_WKB || VP_TYPE == GEOARROW_TYPE_LARGE_WKT ? 3 : 2;
    VP_ASSERT(a->length == (g_size[1] ? (g_size[1] >> w) - 1 : 0), "one element between two offsets");
  } else {
    for (int l = 0; l < LEVELS; l++) VP_ASSERT(at(l)->length == (g_size[1 + l] ? (g_size[1 + l] >> 2) - 1 : 0), "one element between two offsets, at every level");
    for (int j = 0; j < NB; j++) VP_ASSERT(C[j].length == g_size[1 + LEVELS + j] >> 3, "one ordinate for eight bytes");
    int64_t n = at(LEVELS)->length, o = C[0].length;
    if (VP_INTER) VP_ASSERT(n >= 0 && n * VP_NV <= o && o - n * VP_NV < VP_NV, "one coordinate for its ordinates");
    else VP_ASSERT(n == o, "one coordinate for its ordinates");
  }
  if (vp_bool()) return EINVAL;
  PT[0][0] = VB.buffer.data; /* published */
  return 0;
}
static void vp_array_move(struct ArrowArray* src, struct ArrowArray* dst) { *dst = *src; src->release = 0; g_moved++; }
static struct GeoArrowSchemaView g_sv;
static void type_of(void) {
  B.view.schema_view.type = VP_TYPE;
  B.view.schema_view.geometry_type = VP_KIND;
  B.view.schema_view.dimensions = SERIAL ? 0 : (BOX ? VP_NV / 2 : VP_NV) == 2 ? 1 : (BOX ? VP_NV / 2 : VP_NV) == 4 ? 4 : vp_bool() ? 2 : 3;
  B.view.schema_view.coord_type = SERIAL ? GEOARROW_COORD_TYPE_UNKNOWN : VP_INTER ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE;
  g_sv = B.view.schema_view;
}
static void fresh(void) {
  for (int b = 0; b < N_BUFFERS; b++) {
    VP_ASSERT(P.buffers[b] == BUFFER(b), "buffers are where the type prescribes");
    VP_ASSERT(B.view.buffers[b].data.as_uint8 == 0 && B.view.buffers[b].size_bytes == 0 && B.view.buffers[b].capacity_bytes == 0, "the next array starts empty");
  }
  VP_ASSERT(P.validity == &VB && B.view.coords.size_coords == 0 && B.view.coords.capacity_coords == 0, "the next array starts empty");
}
void harness_finish(void) {
  vp_init();
  B.private_data = &P;
  type_of();
  B.view.n_buffers = N_BUFFERS;
  B.view.n_offsets = N_OFFSETS;
  B.view.coords.n_values = SERIAL ? 0 : VP_NV;
  B.view.coords.coords_stride = SERIAL ? 0 : VP_INTER ? VP_NV : 1;
  VP_ASSUME(vp_init_array(&P.array, &P.schema, 0) == 0);
  for (int b = 0; b < N_BUFFERS; b++) {
    int64_t c = size(), s = vp_i64();
    VP_ASSUME(s >= 0 && s <= c);
    BUFFER(b)->data = B.view.buffers[b].data.as_uint8 = c ? (uint8_t*)vp_alloc(0) : 0;
    BUFFER(b)->capacity_bytes = B.view.buffers[b].capacity_bytes = c;
    BUFFER(b)->size_bytes = vp_i64();
    B.view.buffers[b].size_bytes = s;
    P.buffers[b] = BUFFER(b);
    g_size[b] = s;
  }
  /* the validity bitmap may have been filled directly */
  if (vp_bool()) {
    VP_ASSUME(VB.buffer.capacity_bytes > 0 && VB.buffer.size_bytes >= 0 && VB.buffer.size_bytes <= VB.buffer.capacity_bytes);
    B.view.buffers[0].data.as_uint8 = 0;
    B.view.buffers[0].size_bytes = B.view.buffers[0].capacity_bytes = 0;
    g_size[0] = VB.buffer.size_bytes;
  }
  P.validity = &VB;
  int64_t n = B.view.coords.size_coords = size();
  if (!SERIAL)
    for (int j = 0; j < NB; j++) {
      int64_t s = VP_INTER ? n * 8 * VP_NV : n * 8;
      if (s > g_size[1 + LEVELS + j]) g_size[1 + LEVELS + j] = s;
    }
  struct ArrowArray out;
  out.release = 0;
  int rc = GeoArrowBuilderFinish(&B, &out, 0);
  if (rc) {
    VP_ASSERT(out.release == 0, "no output on failure");
    VP_ASSERT(g_moved == 0 || g_released == 1, "what was finished is released");
    VP_REACH("failed");
    return;
  }
  VP_ASSERT(g_finished == 1 && g_inits == 2, "finished, and begun again");
  VP_ASSERT(out.release != 0 && P.array.release != 0 && g_released == 0, "two arrays, the finished and the next one");
  fresh();
  VP_REACH("finished");
}
GeoArrowErrorCode GeoArrowArrayViewInitFromType(struct GeoArrowArrayView* a, enum GeoArrowType t) {
  VP_ASSERT(t == g_sv.type, "the type asked for");
  if (vp_bool()) return EINVAL;
  a->coords.n_values = SERIAL ? 0 : VP_NV;
  a->coords.coords_stride = SERIAL ? 0 : VP_INTER ? VP_NV : 1;
  a->n_offsets = N_OFFSETS;
  return 0;
}
GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* s, enum GeoArrowType t) {
  VP_ASSERT(s == &P.schema && t == g_sv.type, "the type asked for");
  if (vp_bool()) return EINVAL;
  s->release = &on_schema_release;
  return 0;
}
GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* s, enum GeoArrowType type) {
  if (vp_bool()) return EINVAL;
  *s = g_sv;
  return 0;
}
GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* s, const struct ArrowSchema* schema, struct GeoArrowError* error) {
  if (vp_bool()) return EINVAL;
  *s = g_sv;
  return 0;
}
void harness_init(void) {
  vp_init();
  type_of();
  int rc = vp_bool() ? GeoArrowBuilderInitFromType(&B, VP_TYPE) : GeoArrowBuilderInitFromSchema(&B, 0, 0);
  if (rc) {
    VP_ASSERT(!g_live && P.schema.release == 0, "a failed init leaves nothing behind");
    VP_REACH("failed");
    return;
  }
  VP_ASSERT(B.private_data == (void*)&P && B.view.n_buffers == N_BUFFERS && B.view.n_offsets == N_OFFSETS, "the layout of the type");
  VP_ASSERT(B.view.coords.n_values == (SERIAL ? 0 : VP_NV) && B.view.coords.coords_stride == (SERIAL ? 0 : VP_INTER ? VP_NV : 1), "the coordinates of the type");
  fresh();
  GeoArrowBuilderReset(&B);
  VP_ASSERT(!g_live && P.schema.release == 0 && P.array.release == 0 && B.private_data == 0 && g_released == 1, "all is released");
  VP_REACH("life");
}
