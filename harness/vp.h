/* Shared by all proof harnesses. */
#ifndef VP_H
#define VP_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

/* An obligation of the property itself. */
#define VP_ASSERT(c, what) __CPROVER_assert((c), "VP " what)
/* Reachability witness: must be reported as FAILED, or the harness is vacuous. */
#define VP_REACH(what) __CPROVER_assert(0, "VPREACH " what)
#define VP_ASSUME(c) __CPROVER_assume(c)

static uint8_t vp_u8(void) { uint8_t x; return x; }
static int vp_int(void) { int x; return x; }
static uint32_t vp_u32(void) { uint32_t x; return x; }
static int32_t vp_i32(void) { int32_t x; return x; }
static int64_t vp_i64(void) { int64_t x; return x; }
static uint64_t vp_u64(void) { uint64_t x; return x; }
static size_t vp_size(void) { size_t x; return x; }
static _Bool vp_bool(void) { uint8_t x; return (x & 1) != 0; }
static double vp_double(void) { double x; return x; }
#define VP_MAX_OBJ 0xffffffffffULL /* 2^40: objects up to this size, addresses do not wrap */
static void* vp_alloc(size_t n) {
  void* p = malloc(n);
  __CPROVER_assume(p != 0);
  return p;
}
#define VP_OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define VP_SAME(p, q) __CPROVER_same_object((p), (q))

static char* vp_poison; /* an empty object: every access through it is refused */
/* --- loop rule ----------------------------------------------------------------------- */
#define VP_LASSERT(c, what) __CPROVER_assert((c), "VP loop: " what);
#define VP_LASSUME(c, what) __CPROVER_assume(c);

/* Frame condition of a loop: an arbitrary byte of an arbitrary registered object that the
 * loop's specification does not list as modified is the same after an arbitrary iteration. */
#define VP_MAX_OBJS 8
static uint8_t* vp_obj_p[VP_MAX_OBJS];
static size_t vp_obj_n[VP_MAX_OBJS];
static unsigned vp_n_obj = 0;
struct vp_frame {
  unsigned w;
  size_t off;
  uint8_t val;
  _Bool on;
};
static struct vp_frame* vp_cur;
static void vp_init(void) { vp_poison = malloc(0); __CPROVER_assume(vp_poison != 0); }
static void vp_register(const void* p, size_t n) {
  vp_obj_p[vp_n_obj] = (uint8_t*)p;
  vp_obj_n[vp_n_obj] = n;
  vp_n_obj++;
}
static void vp_frame_begin(struct vp_frame* f) {
  f->w = (unsigned)vp_u32();
  f->off = vp_size();
  f->on = f->w < vp_n_obj && f->off < vp_obj_n[f->w];
  if (f->on) f->val = vp_obj_p[f->w][f->off];
  vp_cur = f;
}
static void vp_frame_end(struct vp_frame* f) {
  if (f->on) __CPROVER_assert(vp_obj_p[f->w][f->off] == f->val, "VP loop: nothing outside its frame changes");
}
/* Lists [p, p+n) as modified by the loop and makes it arbitrary. */
static void vp_modifies(const void* p, size_t n) {
  if (vp_cur->on && VP_SAME(p, vp_obj_p[vp_cur->w])) {
    size_t at = VP_OFF(p), o = VP_OFF(vp_obj_p[vp_cur->w]) + vp_cur->off;
    if (o >= at && o - at < n) vp_cur->on = 0;
  }
}
#define VP_HAVOC(lv) do { vp_modifies(&(lv), sizeof(lv)); __CPROVER_havoc_object((void*)&(lv)); } while (0)
/* Ghost state saved when the arbitrary iteration starts: BEFORE_<id>(args). */
#define VP_BEFORE(id, ...) BEFORE_##id(__VA_ARGS__)
#define VP_FRAME_DECL(id) struct vp_frame VPF_##id;
#define VP_FRAME_BEGIN(id) vp_frame_begin(&VPF_##id)
#define VP_FRAME_END(id) vp_frame_end(&VPF_##id)
#endif
