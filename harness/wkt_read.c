/* C05: reading WKT. Under contract: every cursor helper, every grammar function (its callees by
 * their contracts, the recursive one by its own), and the public read. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

struct WKTReaderPrivate;
static const char* g_text;
static size_t g_total;
static int g_max_level = 255;
GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }

/* --- events: a stack of what is open (one bit each: geometry or ring), counted ------------ */
static struct GeoArrowVisitor V;
static struct GeoArrowError E;
static struct WKTReaderPrivate* S;
static uint64_t g_stack, g_stack0;
static int g_depth, g_depth0;
static int g_failed, g_code;
static int g_dims;      /* of the geometry started last */
static int g_type;
static uint64_t g_geoms;
#define ND(d) ((d) == 4 ? 4 : (d) == 1 ? 2 : 3)
static int ev(void) {
  VP_ASSERT(!g_failed, "nothing happens after a failed event");
  int rc = vp_int();
  if (rc) { g_failed = 1; g_code = rc; }
  return rc;
}
static void open_event(int kind) { g_stack = g_stack << 1 | kind; g_depth++; }
static void close_event(int kind) {
  VP_ASSERT(g_depth > g_depth0, "only what was started here is ended");
  VP_ASSERT((g_stack & 1) == kind, "what was started last is ended first");
  g_stack >>= 1;
  g_depth--;
}
static int e_geom(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  VP_ASSERT(v == &V && t >= 1 && t <= 7 && d >= 1 && d <= 4, "a known type and dimensions");
  g_dims = d;
  g_type = t;
  g_geoms++;
  open_event(0);
  return ev();
}
static int e_ring(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); open_event(1); return ev(); }
static int e_ring_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); close_event(1); return ev(); }
static int e_geom_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V, "the visitor"); close_event(0); return ev(); }
static int g_feats, g_feat_ends;
static int e_feat(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V && g_feats == 0, "one feature"); g_feats++; return ev(); }
static int e_feat_end(struct GeoArrowVisitor* v) { VP_ASSERT(v == &V && g_feats == 1 && g_feat_ends == 0 && g_depth == g_depth0, "a feature ends when its geometry has ended"); g_feat_ends++; return ev(); }
static int64_t g_seen; /* coordinates reported */
static int e_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c);

/* --- the reader's state ------------------------------------------------------------------- */
/* The cursor is inside the text and the remaining size is exact. */
#define CUR(s) ((s)->data0 == g_text && VP_SAME((s)->data, g_text) && VP_OFF((s)->data) <= g_total && (s)->size_bytes == (int64_t)(g_total - VP_OFF((s)->data)))
#define VIEW(s) ((s)->coord_view.coords_stride == 1 && (s)->coord_view.values[0] == (s)->coords && (s)->coord_view.values[1] == (s)->coords + 64 && \
  (s)->coord_view.values[2] == (s)->coords + 128 && (s)->coord_view.values[3] == (s)->coords + 192)
#define RINV(s) (CUR(s) && VIEW(s))
/* Moves the cursor of s to an arbitrary place, not before the present one. */
static size_t vp_room(size_t from) {
  size_t o = vp_size();
  VP_ASSUME(o >= from && o <= g_total);
  return o;
}
#define SET_CUR(s, o) { size_t vp_at = (o); (s)->data = g_text + vp_at; (s)->size_bytes = (int64_t)(g_total - vp_at); }

/* --- loop contracts ----------------------------------------------------------------------- */
#define WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\r')
static size_t g_from, g_w;   /* where a helper starts, and a witness position */
static size_t g_it_off;
static _Bool stops(const char* items, char c) {
  if (c == 0) return 1;
  for (int i = 0; i < 8; i++) {
    if (!items[i]) return 0;
    if (items[i] == c) return 1;
  }
  return 0;
}
#define TMP_CUR(s) (VP_SAME((s)->data, g_text) && VP_OFF((s)->data) <= g_total && (s)->size_bytes >= 0 && (s)->size_bytes <= (int64_t)(g_total - VP_OFF((s)->data)))
static int64_t g_end; /* position where the (possibly shortened) text of a helper ends */
#define HAVOC_SKIP(s) vp_modifies((s), sizeof(*(s))); { size_t vp_o = vp_size(); VP_ASSUME(vp_o <= g_total && vp_o >= g_from && vp_o <= (size_t)g_end); (s)->data = g_text + vp_o; (s)->size_bytes = g_end - (int64_t)vp_o; }
#define INV_SKIP(M, s, what) \
  M(TMP_CUR(s) && VP_OFF((s)->data) >= g_from && (int64_t)VP_OFF((s)->data) + (s)->size_bytes == g_end, "the cursor stays inside the text") \
  M(g_w < g_from || g_w >= VP_OFF((s)->data) || what(g_text[g_w]), "only such characters are skipped")
#define ISWS(c) WS(c)
#define NOSTOP(c) (!stops(items, c))
#define INV_WS(M, s) INV_SKIP(M, s, ISWS)
#define HAVOC_WS(s) HAVOC_SKIP(s)
#define BEFORE_WS(s) g_it_off = VP_OFF((s)->data);
#define STEP_WS(M, s) M(VP_OFF((s)->data) > g_it_off, "progress")
#define INV_UNTIL(M, s, items) INV_SKIP(M, s, NOSTOP)
#define HAVOC_UNTIL(s, items) HAVOC_SKIP(s)
#define BEFORE_UNTIL(s, items) g_it_off = VP_OFF((s)->data);
#define STEP_UNTIL(M, s, items) M(VP_OFF((s)->data) > g_it_off, "progress")
/* The loops over members: the cursor moves on, everything started in an iteration ends in it. */
static int g_level;
static int g_nv;
#define INV_LIST(M, s) \
  M(RINV(s) && VP_OFF((s)->data) >= g_from, "the cursor stays inside the text") \
  M(g_stack == g_stack0 && g_depth == g_depth0 && !g_failed, "what was started is ended") \
  M((s)->level == g_level && (s)->coord_view.n_values >= 2 && (s)->coord_view.n_values <= 4, "level and number of ordinates") \
  M(g_any_nv || ((s)->coord_view.n_values == g_nv && ND(g_dims) == g_nv), "the ordinates of the geometry's dimensions") \
  M((s)->coord_view.n_coords >= 0 && (s)->coord_view.n_coords <= 64, "the cache holds at most 64 coordinates")
static _Bool g_any_nv; /* in a collection: members have their own dimensions */
#define HAVOC_LIST(s) vp_modifies((s), sizeof(*(s))); SET_CUR(s, vp_room(g_from)) (s)->coord_view.n_coords = vp_i64(); (s)->coord_view.n_values = vp_i32(); VP_HAVOC(g_seen); VP_HAVOC(g_dims); VP_HAVOC(g_geoms); VP_HAVOC(g_type);
#define BEFORE_LIST(s) g_it_off = VP_OFF((s)->data);
#define STEP_LIST(M, s) M(VP_OFF((s)->data) > g_it_off, "progress")

/* --- callee contracts --------------------------------------------------------------------- */
static void vp_skip_ws(struct WKTReaderPrivate* s);
static void vp_skip_ws_text(struct WKTReaderPrivate* s);
static void vp_until_sep(struct WKTReaderPrivate* s);
static int vp_assert_ws(struct WKTReaderPrivate* s, struct GeoArrowError* e);
static int vp_ordinate(struct WKTReaderPrivate* s, double* out, struct GeoArrowError* e);
static int vp_word_empty(struct WKTReaderPrivate* s, struct GeoArrowError* e);
static int vp_coordinate(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static int vp_empty_or_coords(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static int vp_empty_or_point(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static int vp_polygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static int vp_collection(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static int vp_multipoint(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d);
static int vp_multiline(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d);
static int vp_multipoly(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d);
static int vp_flat(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d);
static int vp_tagged(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v);
static struct ArrowStringView vp_peek(struct WKTReaderPrivate* s, int n);
static struct ArrowStringView vp_peek_word(struct WKTReaderPrivate* s, int n);
static int vp_strncmp(const char* a, const char* b, size_t n);
static char vp_peek_char(struct WKTReaderPrivate* s);
static int vp_assert_char(struct WKTReaderPrivate* s, char c, struct GeoArrowError* e);

#include "geoarrow/wkt_reader.c"

static int g_chars;
GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double* out) {
  VP_ASSERT(VP_SAME(first, g_text) && VP_SAME(last, g_text) && VP_OFF(first) <= VP_OFF(last) && VP_OFF(last) <= g_total, "a number is read from the text");
  if (vp_bool()) return EINVAL;
  *out = vp_double();
  return 0;
}
static int e_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  VP_ASSERT(v == &V && c == &S->coord_view && VIEW(S), "the cache is reported");
  VP_ASSERT(c->n_coords >= 1 && c->n_coords <= 64, "1 to 64 coordinates");
  VP_ASSERT(c->n_values == ND(g_dims), "as many ordinates as the geometry's dimensions");
  VP_ASSERT(g_depth > 0, "coordinates belong to a geometry");
  return ev();
}
static void vp_skip_ws(struct WKTReaderPrivate* s) {
  VP_ASSERT(CUR(s), "a valid cursor");
  SET_CUR(s, vp_room(VP_OFF(s->data)))
}
static void vp_skip_ws_text(struct WKTReaderPrivate* s) {
  vp_skip_ws(s);
  VP_ASSUME(s->size_bytes == 0 || !WS(s->data[0]));
}
static void vp_until_sep(struct WKTReaderPrivate* s) {
  VP_ASSERT(TMP_CUR(s), "a valid cursor");
  size_t n = vp_size();
  VP_ASSUME(n <= (size_t)s->size_bytes);
  s->data += n;
  s->size_bytes -= (int64_t)n;
}
static int vp_assert_ws(struct WKTReaderPrivate* s, struct GeoArrowError* e) {
  VP_ASSERT(CUR(s), "a valid cursor");
  if (s->size_bytes == 0 || vp_bool()) return EINVAL;
  SET_CUR(s, vp_room(VP_OFF(s->data) + 1))
  return 0;
}
static struct ArrowStringView vp_peek(struct WKTReaderPrivate* s, int n) {
  VP_ASSERT(CUR(s) && n >= 0, "a valid cursor");
  struct ArrowStringView out = {s->data, vp_i64()};
  VP_ASSUME(out.size_bytes >= 0 && out.size_bytes <= n && out.size_bytes <= s->size_bytes);
  return out;
}
/* the same, the word's text being a copy */
static char g_word[20];
static int64_t g_word_n;
static struct ArrowStringView vp_peek_word(struct WKTReaderPrivate* s, int n) {
  struct ArrowStringView out = vp_peek(s, n);
  VP_ASSERT(n <= 20, "a short word");
  char any[20];
  memcpy(g_word, any, 20);
  out.data = g_word;
  g_word_n = out.size_bytes;
  return out;
}
static int vp_strncmp(const char* a, const char* b, size_t n) {
  VP_ASSERT(a == g_word && (int64_t)n <= g_word_n, "only the word is compared");
  for (size_t i = 0; i < 20; i++) {
    if (i >= n) return 0;
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
/* the next character: whatever the text has there, the same each time */
static size_t g_peek_at = SIZE_MAX, g_peek_at1 = SIZE_MAX;
static char g_peek_c, g_peek_c1;
static char vp_peek_char(struct WKTReaderPrivate* s) {
  VP_ASSERT(CUR(s), "a valid cursor");
  if (s->size_bytes == 0) return 0;
  size_t o = VP_OFF(s->data);
  if (g_peek_at == o) return g_peek_c;
  char c = g_peek_at1 == o ? g_peek_c1 : (char)vp_u8();
  g_peek_at1 = g_peek_at;
  g_peek_c1 = g_peek_c;
  g_peek_at = o;
  g_peek_c = c;
  return c;
}
static int vp_assert_char(struct WKTReaderPrivate* s, char c, struct GeoArrowError* e) {
  VP_ASSERT(CUR(s), "a valid cursor");
  if (s->size_bytes == 0 || vp_peek_char(s) != c) return EINVAL;
  SET_CUR(s, VP_OFF(s->data) + 1)
  return 0;
}
static int vp_word_empty(struct WKTReaderPrivate* s, struct GeoArrowError* e) {
  VP_ASSERT(CUR(s), "a valid cursor");
  if (s->size_bytes < 5 || vp_bool()) return EINVAL;
  SET_CUR(s, VP_OFF(s->data) + 5)
  return 0;
}
static int g_ords;
static int vp_ordinate(struct WKTReaderPrivate* s, double* out, struct GeoArrowError* e) {
  VP_ASSERT(CUR(s), "a valid cursor");
  VP_ASSERT(out == s->coords + 64 * g_ords + s->coord_view.n_coords, "an ordinate goes to its place in the cache");
  VP_ASSERT(s->coord_view.n_coords >= 0 && s->coord_view.n_coords < 64 && g_ords < 4, "inside the cache");
  g_ords++;
  if (vp_bool()) return EINVAL;
  *out = vp_double();
  SET_CUR(s, vp_room(VP_OFF(s->data)))
  return 0;
}
#define READY(s) VP_ASSERT(RINV(s) && (s)->level == g_level && (s)->coord_view.n_values == ND(g_dims) && !g_failed && g_depth > 0, "called in a valid state")
static int vp_coordinate(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && s == S, "the visitor");
  READY(s);
  VP_ASSERT(s->coord_view.n_coords >= 0 && s->coord_view.n_coords <= 64, "the cache holds at most 64 coordinates");
  if (vp_bool()) { if (vp_bool()) { int rc = ev(); VP_ASSUME(rc != 0); return rc; } return EINVAL; }
  SET_CUR(s, vp_room(VP_OFF(s->data)))
  s->coord_view.n_coords = s->coord_view.n_coords == 64 ? 1 : s->coord_view.n_coords + 1;
  return 0;
}
/* the contract all grammar functions share: on success what was started is ended, the cursor has not
 * gone back, and the state is as before */
static int grammar(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && s == S, "the visitor");
  READY(s);
  if (vp_bool()) { int rc = vp_int(); VP_ASSUME(rc != 0); if (vp_bool()) { g_failed = 1; g_code = rc; } return rc; }
  SET_CUR(s, vp_room(VP_OFF(s->data)))
  s->coord_view.n_coords = vp_i64();
  VP_ASSUME(s->coord_view.n_coords >= 0 && s->coord_view.n_coords <= 64);
  return 0;
}
static int g_want;  /* which grammar function has to be called: the type announced */
static int vp_empty_or_coords(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) { VP_ASSERT((g_stack & 1) || g_type != 1, "a sequence"); return grammar(s, v); }
static int vp_empty_or_point(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) { VP_ASSERT(g_type == 1, "a point"); return grammar(s, v); }
static int vp_polygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) { VP_ASSERT(g_type == 3, "a polygon"); return grammar(s, v); }
static int vp_multi(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d, int t) {
  VP_ASSERT(g_type == t && d == g_dims, "the type and dimensions announced");
  int rc = grammar(s, v);
  g_type = vp_int();
  return rc;
}
static int vp_multipoint(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d) { return vp_multi(s, v, d, 4); }
static int vp_multiline(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d) { return vp_multi(s, v, d, 5); }
static int vp_multipoly(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d) { return vp_multi(s, v, d, 6); }
static int vp_flat(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v, enum GeoArrowDimensions d) {
  VP_ASSERT(d == g_dims, "the dimensions announced");
  size_t o = VP_OFF(s->data);
  int rc = grammar(s, v);
  VP_ASSUME(rc || VP_OFF(s->data) > o);
  return rc;
}
static int vp_collection(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
  VP_ASSERT(g_type == 7, "a collection");
  int rc = grammar(s, v);
  g_dims = vp_int();
  g_type = vp_int();
  s->coord_view.n_values = vp_i32();
  VP_ASSUME(s->coord_view.n_values >= 2 && s->coord_view.n_values <= 4);
  return rc;
}
static int vp_tagged(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
  VP_ASSERT(v == &V && s == S && RINV(s) && !g_failed, "called in a valid state");
  VP_ASSERT(s->level == g_level && s->level <= 255, "a member is one level deeper, 255 at most");
  if (vp_bool()) { int rc = vp_int(); VP_ASSUME(rc != 0); if (vp_bool()) { g_failed = 1; g_code = rc; } return rc; }
  VP_ASSUME(VP_OFF(s->data) < g_total);
  SET_CUR(s, vp_room(VP_OFF(s->data) + 1))
  g_geoms++;
  g_dims = vp_int();
  g_type = vp_int();
  s->coord_view.n_coords = vp_i64();
  s->coord_view.n_values = vp_i32();
  VP_ASSUME(s->coord_view.n_coords >= 0 && s->coord_view.n_coords <= 64 && s->coord_view.n_values >= 2 && s->coord_view.n_values <= 4);
  return 0;
}

/* --- harnesses ---------------------------------------------------------------------------- */
static struct WKTReaderPrivate SP;
static int g_mallocs, g_frees;
void* ArrowMalloc(int64_t n) {
  VP_ASSERT(n >= (int64_t)sizeof(SP) && g_mallocs == 0, "room for the state");
  g_mallocs++;
  return vp_bool() ? NULL : (void*)&SP;
}
void ArrowFree(void* p) {
  VP_ASSERT(p == (void*)&SP && g_frees == 0, "the state is released once");
  g_frees++;
}
static void start(void) {
  vp_init();
  struct WKTReaderPrivate any;
  SP = any;
  S = &SP;
  g_total = vp_size();
  VP_ASSUME(g_total <= VP_MAX_OBJ);
  g_text = vp_alloc(g_total);
  SP.data0 = g_text;
  g_from = vp_size();
  VP_ASSUME(g_from <= g_total);
  SET_CUR(&SP, g_from)
  g_end = (int64_t)g_total;
  g_w = vp_size();
  VP_ASSUME(g_w < g_total || g_total == 0);
  if (g_total == 0) g_w = 0;
  SP.coord_view.coords_stride = 1;
  for (int i = 0; i < 4; i++) SP.coord_view.values[i] = SP.coords + 64 * i;
  g_level = SP.level;
  VP_ASSUME(g_level >= 0 && g_level <= 255);
  V.feat_start = &e_feat; V.geom_start = &e_geom; V.ring_start = &e_ring; V.coords = &e_coords;
  V.ring_end = &e_ring_end; V.geom_end = &e_geom_end; V.feat_end = &e_feat_end; V.error = &E;
  g_dims = vp_int();
  VP_ASSUME(g_dims >= 1 && g_dims <= 4);
  g_nv = SP.coord_view.n_values = ND(g_dims);
  g_stack0 = g_stack = vp_u64() >> 4;
  g_depth0 = g_depth = vp_int();
  VP_ASSUME(g_depth0 >= 0 && g_depth0 < 1 << 20);
  vp_register(g_text, g_total);
}
static void after_skip(size_t o) {
  VP_ASSERT(RINV(&SP) && VP_OFF(SP.data) >= o, "the cursor stays inside the text");
}
void harness_ws(void) {
  start();
  GeoArrowWKTSkipWhitespace(&SP);
  after_skip(g_from);
  VP_ASSERT(SP.size_bytes == 0 || !WS(SP.data[0]), "all of the whitespace is skipped");
  VP_ASSERT(g_w < g_from || g_w >= VP_OFF(SP.data) || WS(g_text[g_w]), "only whitespace is skipped");
  VP_REACH("whitespace");
}
void harness_assert(void) {
  start();
  VP_ASSERT(PeekChar(&SP) == (SP.size_bytes > 0 ? SP.data[0] : 0), "the next character");
  char c = (char)vp_u8(), at = SP.size_bytes > 0 ? SP.data[0] : 0;
  _Bool more = SP.size_bytes > 0;
  int rc = vp_bool() ? GeoArrowWKTAssertChar(&SP, c, &E) : (c = ' ', GeoArrowWKTAssertWhitespace(&SP, &E));
  after_skip(g_from);
  if (rc == 0) {
    VP_ASSERT(more && (c == ' ' ? WS(at) : at == c), "the character is there");
    VP_ASSERT(VP_OFF(SP.data) > g_from, "and consumed");
    VP_REACH("expected character");
  } else VP_ASSERT(VP_OFF(SP.data) == g_from, "nothing is consumed otherwise");
}
static const char SEP[] = " \n\t\r,()";
void harness_until(void) {
  start();
  GeoArrowWKTSkipUntilSep(&SP);
  after_skip(g_from);
  VP_ASSERT(SP.size_bytes == 0 || stops(SEP, SP.data[0]), "the separator is found");
  VP_ASSERT(g_w < g_from || g_w >= VP_OFF(SP.data) || !stops(SEP, g_text[g_w]), "no separator is skipped");
  VP_REACH("separator");
}
void harness_peek(void) {
  start();
  int n = vp_int();
  VP_ASSUME(n >= 0);
  if ((int64_t)(g_total - g_from) > n) g_end = (int64_t)g_from + n;
  struct ArrowStringView w = GeoArrowWKTPeekUntilSep(&SP, n);
  VP_ASSERT(CUR(&SP) && VP_OFF(SP.data) == g_from, "the cursor stays");
  VP_ASSERT(w.data == SP.data && w.size_bytes >= 0 && w.size_bytes <= n && w.size_bytes <= SP.size_bytes, "a word of the text, no longer than asked for");
  VP_REACH("peek");
}
void harness_empty(void) {
  start();
  int rc = GeoArrowWKTAssertWordEmpty(&SP, &E);
  after_skip(g_from);
  if (rc == 0) {
    VP_ASSERT(VP_OFF(SP.data) == g_from + 5, "the word is consumed");
    VP_ASSERT(g_text[g_from] == 'E' && g_text[g_from + 1] == 'M' && g_text[g_from + 2] == 'P' && g_text[g_from + 3] == 'T' && g_text[g_from + 4] == 'Y', "the word is EMPTY");
    VP_REACH("empty");
  } else VP_ASSERT(VP_OFF(SP.data) == g_from, "nothing is consumed otherwise");
}
void harness_ordinate(void) {
  start();
  double d;
  int rc = ReadOrdinate(&SP, &d, &E);
  after_skip(g_from);
  if (rc == 0) VP_REACH("ordinate"); else VP_REACH("no ordinate");
}
#define DONE(rc) (g_failed ? (rc) != 0 : (rc) == 0)
void harness_coordinate(void) {
  start();
  VP_ASSUME(g_depth0 > 0);
  int64_t n = SP.coord_view.n_coords;
  VP_ASSUME(n >= 0 && n <= 64);
  int rc = ReadCoordinate(&SP, &V);
  VP_ASSERT(!g_failed || rc == g_code, "a failing callback's code is returned");
  if (rc == 0) {
    VP_ASSERT(RINV(&SP) && VP_OFF(SP.data) >= g_from, "the cursor stays inside the text");
    VP_ASSERT(SP.coord_view.n_coords == (n == 64 ? 1 : n + 1), "one more coordinate in the cache");
    VP_ASSERT(g_ords == SP.coord_view.n_values, "with all of its ordinates");
    VP_REACH("coordinate");
  }
}
static void grammar_start(int type) {
  start();
  vp_n_obj = 0; /* none of these reads or writes the text except by the helpers */
  VP_ASSUME(g_depth0 > 0);
  g_type = type;
  SP.coord_view.n_coords = vp_i64();
  VP_ASSUME(SP.coord_view.n_coords >= 0 && SP.coord_view.n_coords <= 64);
}
static void grammar_end(int rc) {
  VP_ASSERT(!g_failed || rc == g_code, "a failing callback's code is returned");
  if (rc == 0) {
    VP_ASSERT(RINV(&SP) && VP_OFF(SP.data) >= g_from, "the cursor stays inside the text");
    VP_ASSERT(g_stack == g_stack0 && g_depth == g_depth0, "what was started is ended");
    VP_ASSERT(SP.level == g_level, "the level is as before");
    VP_ASSERT(SP.coord_view.n_values >= 2 && SP.coord_view.n_values <= 4 && (g_any_nv || SP.coord_view.n_values == g_nv), "the ordinates are as before");
    VP_ASSERT(SP.coord_view.n_coords >= 0 && SP.coord_view.n_coords <= 64, "the cache holds at most 64 coordinates");
  }
}
void harness_coords(void) {
  grammar_start(2);
  int rc = ReadEmptyOrCoordinates(&SP, &V);
  grammar_end(rc);
  if (rc == 0) VP_REACH("sequence");
}
void harness_flat(void) {
  grammar_start(4);
  int rc = ReadMultipointFlat(&SP, &V, g_dims);
  grammar_end(rc);
  if (rc == 0) VP_ASSERT(VP_OFF(SP.data) > g_from, "the parenthesis is consumed");
  if (rc == 0) VP_REACH("points");
}
void harness_point(void) {
  grammar_start(1);
  int rc = ReadEmptyOrPointCoordinate(&SP, &V);
  grammar_end(rc);
  if (rc == 0) VP_REACH("point");
}
void harness_polygon(void) {
  grammar_start(3);
  int rc = ReadPolygon(&SP, &V);
  grammar_end(rc);
  if (rc == 0) VP_REACH("polygon");
}
void harness_multipoint(void) {
  grammar_start(4);
  int rc = ReadMultipoint(&SP, &V, g_dims);
  grammar_end(rc);
  if (rc == 0) VP_REACH("multipoint");
}
void harness_multiline(void) {
  grammar_start(5);
  int rc = ReadMultilinestring(&SP, &V, g_dims);
  grammar_end(rc);
  if (rc == 0) VP_REACH("multilinestring");
}
void harness_multipoly(void) {
  grammar_start(6);
  int rc = ReadMultipolygon(&SP, &V, g_dims);
  grammar_end(rc);
  if (rc == 0) VP_REACH("multipolygon");
}
void harness_collection(void) {
  grammar_start(7);
  g_any_nv = 1;
  int level = g_level++; /* of the members */
  int rc = ReadGeometryCollection(&SP, &V);
  g_level = level;
  grammar_end(rc);
  VP_ASSERT(rc || level < 255 || g_geoms == 0, "nesting that is too deep is refused");
  if (rc == 0) VP_REACH("collection");
}
void harness_tagged(void) {
  start();
  SP.coord_view.n_values = vp_i32();
  g_type = vp_int();
  int rc = ReadTaggedGeometry(&SP, &V);
  g_any_nv = 1;
  grammar_end(rc);
  if (rc == 0) {
    VP_ASSERT(g_geoms == 1, "one geometry is reported");
    VP_ASSERT(VP_OFF(SP.data) > g_from, "its tag is consumed");
    VP_REACH("geometry");
  }
}
void harness_visit(void) {
  start();
  struct GeoArrowWKTReader reader = {&SP};
  struct GeoArrowStringView text = {g_text, (int64_t)g_total};
  struct WKTReaderPrivate any;
  SP.data = any.data; SP.data0 = any.data0; SP.size_bytes = any.size_bytes; SP.level = any.level;
  SP.coord_view.n_coords = any.coord_view.n_coords; SP.coord_view.n_values = any.coord_view.n_values;
  g_level = 0;
  int rc = GeoArrowWKTReaderVisit(&reader, text, &V);
  VP_ASSERT(!g_failed || rc == g_code, "a failing callback's code is returned");
  if (rc == 0) {
    VP_ASSERT(g_feats == 1 && g_feat_ends == 1 && g_geoms == 1, "one feature with one geometry");
    VP_ASSERT(g_stack == g_stack0 && g_depth == g_depth0, "what was started is ended");
    VP_ASSERT(SP.size_bytes == 0 && VP_OFF(SP.data) == g_total, "the whole text was consumed");
    VP_REACH("text");
  }
}
void harness_init(void) {
  struct GeoArrowWKTReader reader;
  int rc = GeoArrowWKTReaderInit(&reader);
  if (rc == 0) {
    struct WKTReaderPrivate* s = reader.private_data;
    VP_ASSERT(VIEW(s), "the cache is ready");
    VP_REACH("init");
    GeoArrowWKTReaderReset(&reader);
    VP_ASSERT(g_frees == 1, "the state is released");
  }
}
#ifdef VP_CHARS
/* the portable number parser */
#undef GEOARROW_USE_FAST_FLOAT
#define GEOARROW_USE_FAST_FLOAT 0
#define GeoArrowFromChars GeoArrowFromChars0
#define strtod vp_strtod
static const char* g_copy;
static double vp_strtod(const char* s, char** end) {
  int n = vp_int();
  VP_ASSERT(__CPROVER_r_ok(s, 1), "a readable copy");
  size_t len = strlen(s);
  VP_ASSUME(n >= 0 && (size_t)n <= len);
  *end = (char*)s + n;
  return vp_double();
}
#include "geoarrow/double_parse_std.c"
void harness_chars(void) {
  start();
  size_t n = vp_size();
  VP_ASSUME(n <= g_total - g_from);
  double d = 0;
  int rc = GeoArrowFromChars0(SP.data, SP.data + n, &d);
  if (rc == 0) { VP_ASSERT(n > 0, "no number in nothing"); VP_REACH("number"); } else VP_REACH("no number");
}
#endif
