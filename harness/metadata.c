/* C16, C17: extension metadata. Every function of metadata.c that reads or writes text. */
#include "vp.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

GeoArrowErrorCode GeoArrowErrorSet(struct GeoArrowError* error, const char* fmt, ...) { return EINVAL; }
static const char* g_text;
static size_t g_total;
static size_t g_from, g_w;
/* the cursor is inside the text, the remaining size exact */
#define CUR(s) (VP_SAME((s)->data, g_text) && VP_OFF((s)->data) <= g_total && (s)->size_bytes == (int64_t)(g_total - VP_OFF((s)->data)))
#define SET_CUR(s, o) { size_t vp_at = (o); VP_ASSUME(vp_at <= g_total); (s)->data = g_text + vp_at; (s)->size_bytes = (int64_t)(g_total - vp_at); }
static size_t vp_room(size_t from) {
  size_t o = vp_size();
  VP_ASSUME(o >= from && o <= g_total);
  return o;
}
#define WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\r')
static _Bool stops(const char* items, char c) {
  for (int i = 0; i < 8; i++) {
    if (!items[i]) return 0;
    if (items[i] == c) return 1;
  }
  return 0;
}
static size_t g_it_off;
#define HAVOC_CUR(s) vp_modifies((s), sizeof(*(s))); SET_CUR(s, vp_room(g_from))
#define INV_SKIP(M, s, what) \
  M(CUR(s) && VP_OFF((s)->data) >= g_from, "the cursor stays inside the text") \
  M(g_w < g_from || g_w >= VP_OFF((s)->data) || what(g_text[g_w]), "only such characters are skipped")
#define STEP_CUR(M, s) M(VP_OFF((s)->data) > g_it_off, "progress")
#define BEFORE_CUR(s) g_it_off = VP_OFF((s)->data);
#define ISWS(c) WS(c)
#define INV_WS(M, s) INV_SKIP(M, s, ISWS)
#define HAVOC_WS(s) HAVOC_CUR(s)
#define BEFORE_WS(s) BEFORE_CUR(s)
#define STEP_WS(M, s) STEP_CUR(M, s)
#define NOSTOP(c) ((c) != 0 && !stops(items, c))
#define INV_UNTIL(M, s, items) INV_SKIP(M, s, NOSTOP)
#define HAVOC_UNTIL(s, items) HAVOC_CUR(s)
#define BEFORE_UNTIL(s, items) BEFORE_CUR(s)
#define STEP_UNTIL(M, s, items) STEP_CUR(M, s)
#define INV_STR(M, s, out) \
  M(CUR(s) && VP_OFF((s)->data) > g_from, "the cursor stays inside the text") \
  M((out)->data == g_text + g_from, "the string starts where it was found")
#define HAVOC_STR(s, out) HAVOC_CUR(s)
#define BEFORE_STR(s, out) BEFORE_CUR(s)
#define STEP_STR(M, s, out) STEP_CUR(M, s)
#define INV_MEM(M, s, out) INV_STR(M, s, out)
#define HAVOC_MEM(s, out) HAVOC_CUR(s)
#define BEFORE_MEM(s, out) BEFORE_CUR(s)
#define STEP_MEM(M, s, out) STEP_CUR(M, s)

/* --- contracts of the helpers --- */
static void vp_skip_ws(struct ArrowStringView* s) {
  VP_ASSERT(CUR(s), "a valid cursor");
  SET_CUR(s, vp_room(VP_OFF(s->data)))
}
static int vp_skip_until(struct ArrowStringView* s, const char* items) {
  VP_ASSERT(CUR(s), "a valid cursor");
  SET_CUR(s, vp_room(VP_OFF(s->data)))
  if (s->size_bytes > 0 && stops(items, s->data[0]) && s->data[0]) return 1;
  VP_ASSUME(s->size_bytes == 0 || s->data[0] == 0);
  return 0;
}
static int find(struct ArrowStringView* s, struct ArrowStringView* out, size_t least) {
  VP_ASSERT(CUR(s) && s->size_bytes > 0, "a valid cursor with a character left");
  if (vp_bool() || (size_t)s->size_bytes < least) { SET_CUR(s, vp_room(VP_OFF(s->data))) return EINVAL; }
  out->data = s->data;
  size_t o = VP_OFF(s->data);
  SET_CUR(s, vp_room(o + least))
  out->size_bytes = (int64_t)(VP_OFF(s->data) - o);
  return 0;
}
static int g_depth;
static int vp_find_string(struct ArrowStringView* s, struct ArrowStringView* out);
static int vp_find_list(struct ArrowStringView* s, struct ArrowStringView* out, int depth);
static int vp_find_object(struct ArrowStringView* s, struct ArrowStringView* out, int depth);
static int vp_find_null(struct ArrowStringView* s, struct ArrowStringView* out);
static int vp_find_key_or_string(struct ArrowStringView* s, struct ArrowStringView* out);
static int vp_compare(const char* a, const char* b, size_t n);
static int vp_parse_json(struct GeoArrowMetadataView* m, struct ArrowStringView* s);
static int vp_init_json(struct GeoArrowMetadataView* m, struct GeoArrowError* e);

/* --- the members of the object --- */
static char g_k[24], g_v[24];
static int64_t g_kn, g_vn;
static const char *g_kp, *g_vp;
static struct GeoArrowMetadataView g_m0; /* before the iteration */
static int g_keys, g_vals;
static _Bool is(const char* w, int64_t n, const char* name) {
  size_t len = strlen(name);
  if (n != (int64_t)len) return 0;
  for (size_t k = 0; k < 20; k++) {
    if (k >= len) return 1;
    if (w[k] != name[k]) return 0;
  }
  return 1;
}
#define VIEW_IN(c) ((c).size_bytes == 0 ? (c).data == 0 : (c).size_bytes > 0 && VP_SAME((c).data, g_text) && VP_OFF((c).data) <= g_total && (uint64_t)(c).size_bytes <= g_total - VP_OFF((c).data))
static int edge_of(void) {
  return is(g_v, g_vn, "\"spherical\"") ? 1 : is(g_v, g_vn, "\"vincenty\"") ? 2 : is(g_v, g_vn, "\"thomas\"") ? 3 : is(g_v, g_vn, "\"andoyer\"") ? 4 : is(g_v, g_vn, "\"karney\"") ? 5 :
         is(g_v, g_vn, "\"planar\"") || is(g_v, g_vn, "null") ? 0 : -1;
}
static int crs_type_of(void) {
  return is(g_v, g_vn, "\"projjson\"") ? 2 : is(g_v, g_vn, "\"wkt2:2019\"") ? 3 : is(g_v, g_vn, "\"authority_code\"") ? 4 : is(g_v, g_vn, "\"srid\"") ? 5 : 1;
}
#define META_OK(m) ((int)(m)->edge_type >= 0 && (m)->edge_type <= 5 && (int)(m)->crs_type >= 0 && (m)->crs_type <= 5 && VIEW_IN((m)->crs))
#define INV_META(M, s, m) \
  M(CUR(s), "the cursor stays inside the text") \
  M(META_OK(m), "the values are known and the views inside the text")
#define HAVOC_META(s, m) HAVOC_CUR(s) (m)->edge_type = vp_int(); (m)->crs_type = vp_int(); (m)->crs.size_bytes = vp_i64(); \
  if ((m)->crs.size_bytes == 0) (m)->crs.data = 0; else { size_t vp_o = vp_size(); VP_ASSUME(vp_o <= g_total); (m)->crs.data = g_text + vp_o; }
#define BEFORE_META(s, m) g_it_off = VP_OFF((s)->data); g_m0 = *(m); g_keys = g_vals = 0;
#define EDGES is(g_k, g_kn, "\"edges\"")
#define CRS is(g_k, g_kn, "\"crs\"")
#define CRS_TYPE is(g_k, g_kn, "\"crs_type\"")
#define SAME_CRS(m) ((m)->crs.data == g_m0.crs.data && (m)->crs.size_bytes == g_m0.crs.size_bytes)
#define STEP_META(M, s, m) \
  M(VP_OFF((s)->data) > g_it_off, "progress") \
  M(g_keys == 1 && g_vals == 1, "a key and its value") \
  M((m)->edge_type == (EDGES ? edge_of() : g_m0.edge_type), "the edge type is the one named, unknown ones are refused") \
  M(CRS || SAME_CRS(m), "only \"crs\" changes the system") \
  M(!CRS || g_v[0] == 'n' || ((m)->crs.data == g_vp && (m)->crs.size_bytes == g_vn && (g_v[0] == '{' || g_v[0] == '"')), "the system is the value's text") \
  M(CRS || (m)->crs_type == (CRS_TYPE ? crs_type_of() : g_m0.crs_type), "the system type is the one named") \
  M(!CRS_TYPE || g_v[0] == '"', "the system type is a string") \
  M(!CRS || (m)->crs_type == (g_v[0] == 'n' ? 0 : g_m0.crs_type == 0 ? 1 : g_m0.crs_type), "a system without a type has an unknown one, null has none")

/* --- writing --- */
/* esc(i): how many of the first i characters need a backslash */
int64_t __CPROVER_uninterpreted_esc(int64_t i);
#define ESC(i) __CPROVER_uninterpreted_esc((int64_t)(i))
static const char* g_crs;
static int64_t g_crs_n;
#define NEEDS(c) ((c) == '\\' || (c) == '"')
static void esc_facts(int64_t i) {
  VP_ASSUME(ESC(0) == 0 && ESC(g_crs_n) >= 0 && ESC(g_crs_n) <= g_crs_n);
  if (i >= 0 && i < g_crs_n)
    VP_ASSUME(ESC(i) >= 0 && ESC(i) <= i && ESC(i + 1) == ESC(i) + NEEDS(g_crs[i]) && g_crs_n + ESC(g_crs_n) >= i + 1 + ESC(i + 1));
}
static int64_t g_size0, g_it;
static char* g_out;
static size_t g_out_n, g_out_at;
#define INV_CNT(M, n, i) M((i) >= 0 && (i) <= g_crs_n && ESC(i) >= 0 && ESC(i) <= (i) && (n) == g_size0 + ESC(i), "escapes are counted")
#define ESC_AT(i) esc_facts(-1); VP_ASSUME((i) >= 0 && (i) <= g_crs_n && ESC(i) >= 0 && ESC(i) <= (i));
#define HAVOC_CNT(n, i) ESC_AT(i) n = g_size0 + ESC(i);
#define BEFORE_CNT(n, i) esc_facts(i); g_it = (i);
#define STEP_CNT(M, n, i) M((i) == g_it + 1, "progress")
#define BEGIN_CNT(n) g_size0 = (n);
#define INV_ESCW(M, out, i) \
  M((i) >= 0 && (i) <= g_crs_n && ESC(i) >= 0 && ESC(i) <= (i) && VP_SAME(out, g_out) && VP_OFF(out) == g_out_at + (size_t)((i) + ESC(i)), "the text grows by the characters and their escapes")
#define HAVOC_ESCW(out, i) ESC_AT(i) out = g_out + g_out_at + (size_t)((i) + ESC(i));
#define BEFORE_ESCW(out, i) esc_facts(i); g_it = (i);
#define LAST(k) g_out[VP_OFF(g_esc_out) - (k)]
#define STEP_ESCW(M, out, i) g_esc_out = (out); M((i) == g_it + 1, "progress") \
  M(LAST(1) == g_crs[g_it], "the character is copied") \
  M(!NEEDS(g_crs[g_it]) || LAST(2) == '\\', "and escaped if it is a quote or a backslash")
static char* g_esc_out;
static void vp_write_view(struct ArrowStringView sv, char** out);
static int64_t vp_size_of(const struct GeoArrowMetadataView* m);
static int64_t vp_serialize(const struct GeoArrowMetadataView* m, char* out);
static void vp_buffer_reset(struct ArrowBuffer* b);
static void* vp_copy(void* dst, const void* src, size_t n);
static int vp_v_string(struct ArrowStringView* s, struct ArrowStringView* out);
static int vp_v_list(struct ArrowStringView* s, struct ArrowStringView* out, int depth);
static int vp_v_object(struct ArrowStringView* s, struct ArrowStringView* out, int depth);
static int vp_v_null(struct ArrowStringView* s, struct ArrowStringView* out);

/* unescaping */
static int64_t g_n;
#define INV_UNESC(M, out_i, i) M((i) >= 1 && ((i) == 1 || (i) <= g_crs_n - 1) && (out_i) >= 0 && (out_i) <= (i) - 1, "a character at most for each one read")
#define HAVOC_UNESC(out_i, i)
#define BEFORE_UNESC(out_i, i) g_it = (i); g_size0 = (out_i);
#define STEP_UNESC(M, out_i, i) M((i) == g_it + 1 && (out_i) >= g_size0 && (out_i) <= g_size0 + 1, "progress")

#include "geoarrow/metadata.c"

static int vp_find_string(struct ArrowStringView* s, struct ArrowStringView* out) {
  VP_ASSUME(1);
  if (!(s->size_bytes > 0)) { VP_ASSERT(CUR(s), "a valid cursor"); return EINVAL; }
  if (s->data[0] != '"') { out->data = s->data; return EINVAL; }
  return find(s, out, 2);
}
static int vp_find_list(struct ArrowStringView* s, struct ArrowStringView* out, int depth) {
  VP_ASSERT(depth == g_depth, "one level deeper");
  VP_ASSERT(s->size_bytes > 0 && s->data[0] == '[', "a list");
  if (depth >= 128) return EINVAL;
  return find(s, out, 2);
}
static int vp_find_object(struct ArrowStringView* s, struct ArrowStringView* out, int depth) {
  VP_ASSERT(depth == g_depth, "one level deeper");
  VP_ASSERT(s->size_bytes > 0 && s->data[0] == '{', "an object");
  if (depth >= 128) return EINVAL;
  return find(s, out, 2);
}
static int vp_find_null(struct ArrowStringView* s, struct ArrowStringView* out) {
  VP_ASSERT(CUR(s), "a valid cursor");
  if (s->size_bytes < 4 || s->data[0] != 'n' || vp_bool()) return EINVAL;
  out->data = s->data;
  out->size_bytes = 4;
  SET_CUR(s, VP_OFF(s->data) + 4)
  return 0;
}
/* In ParseJSONMetadata: the text of the key and of the value, whatever they are. */
static int value(struct ArrowStringView* out, int rc) {
  if (rc) return rc;
  char any[24];
  if (g_keys == 0) {
    g_keys++;
    memcpy(g_k, any, 24);
    g_kn = out->size_bytes;
    g_kp = out->data;
    VP_ASSUME(g_k[0] == '"');
  } else {
    g_vals++;
    memcpy(g_v, any, 24);
    g_vn = out->size_bytes;
    g_vp = out->data;
    VP_ASSUME(g_v[0] == out->data[0]);
  }
  return 0;
}
static int vp_v_string(struct ArrowStringView* s, struct ArrowStringView* out) { return value(out, vp_find_string(s, out)); }
static int vp_v_list(struct ArrowStringView* s, struct ArrowStringView* out, int depth) { return value(out, vp_find_list(s, out, depth)); }
static int vp_v_object(struct ArrowStringView* s, struct ArrowStringView* out, int depth) { return value(out, vp_find_object(s, out, depth)); }
static int vp_v_null(struct ArrowStringView* s, struct ArrowStringView* out) {
  int rc = value(out, vp_find_null(s, out));
  if (rc == 0) VP_ASSUME(g_v[0] == 'n' && g_v[1] == 'u' && g_v[2] == 'l' && g_v[3] == 'l');
  return rc;
}
static int vp_compare(const char* a, const char* b, size_t n) {
  VP_ASSERT((g_keys && a == g_kp && (int64_t)n <= g_kn) || (g_vals && a == g_vp && (int64_t)n <= g_vn), "only the key's or the value's own text is compared");
  const char* w = g_vals && a == g_vp ? g_v : g_k;
  for (size_t i = 0; i < 20; i++) {
    if (i >= n) return 0;
    if (w[i] != b[i]) return w[i] < b[i] ? -1 : 1;
    if (!w[i]) return 0;
  }
  return 0;
}

static struct ArrowStringView SV;
static struct GeoArrowError E;
static void start(void) {
  vp_init();
  g_total = vp_size();
  VP_ASSUME(g_total <= VP_MAX_OBJ);
  g_text = vp_alloc(g_total);
  g_from = vp_size();
  VP_ASSUME(g_from <= g_total);
  SET_CUR(&SV, g_from)
  g_w = vp_size();
  if (g_w >= g_total) g_w = 0;
  if (g_total == 0) g_from = 0;
}
#define ENDS VP_ASSERT(CUR(&SV) && VP_OFF(SV.data) >= g_from, "the cursor stays inside the text")
void harness_ws(void) {
  start();
  SkipWhitespace(&SV);
  ENDS;
  VP_ASSERT(SV.size_bytes == 0 || !WS(SV.data[0]), "all of the whitespace is skipped");
  VP_REACH("whitespace");
}
void harness_until(void) {
  start();
  VP_ASSUME(g_total > 0);
  const char* items = VP_ITEMS;
  int rc = SkipUntil(&SV, items);
  ENDS;
  VP_ASSERT(rc ? SV.size_bytes > 0 && stops(items, SV.data[0]) && SV.data[0] : SV.size_bytes == 0 || SV.data[0] == 0, "one of the characters, or the end or a NUL");
  if (rc) VP_REACH("found");
}
void harness_char(void) {
  start();
  char c = (char)vp_u8(), at = SV.size_bytes > 0 ? SV.data[0] : 0;
  int rc = ParseChar(&SV, c);
  ENDS;
  VP_ASSERT(rc == 0 ? g_total > g_from && at == c && VP_OFF(SV.data) == g_from + 1 : VP_OFF(SV.data) == g_from, "the character is there and consumed");
  if (rc == 0) VP_REACH("character");
}
static void found(int rc, struct ArrowStringView* out, size_t least, char first) {
  ENDS;
  if (rc == 0) {
    VP_ASSERT(out->data == g_text + g_from && out->size_bytes == (int64_t)(VP_OFF(SV.data) - g_from) && out->size_bytes >= (int64_t)least, "the value is what was consumed");
    VP_ASSERT(g_text[g_from] == first, "it starts with its own character");
    VP_REACH("found");
  }
}
void harness_null(void) {
  start();
  struct ArrowStringView out;
  int rc = FindNull(&SV, &out);
  found(rc, &out, 4, 'n');
  if (rc == 0) VP_ASSERT(out.size_bytes == 4 && out.data[1] == 'u' && out.data[2] == 'l' && out.data[3] == 'l', "null");
}
void harness_string(void) {
  start();
  struct ArrowStringView out;
  found(FindString(&SV, &out), &out, 2, '"');
}
#ifndef VP_OBJECT
#define VP_OBJECT 0
#endif
void harness_nested(void) {
  start();
  VP_ASSUME(g_total > g_from);
  struct ArrowStringView out;
  int depth = vp_int();
  VP_ASSUME(depth >= 0 && depth <= 128);
  g_depth = depth + 1;
  int rc = VP_OBJECT ? FindObject(&SV, &out, depth) : FindList(&SV, &out, depth);
  VP_ASSERT(rc || depth < 128, "nesting that is too deep is refused");
  found(rc, &out, 2, VP_OBJECT ? '{' : '[');
}
void harness_parse(void) {
  start();
  struct GeoArrowMetadataView m;
  m.edge_type = GEOARROW_EDGE_TYPE_PLANAR; m.crs_type = GEOARROW_CRS_TYPE_NONE; m.crs.data = 0; m.crs.size_bytes = 0;
  g_depth = 0;
  int rc = ParseJSONMetadata(&m, &SV);
  VP_ASSERT(CUR(&SV), "the cursor stays inside the text");
  if (rc == 0) {
    VP_ASSERT(META_OK(&m), "the values are known and the views inside the text");
    VP_ASSERT(VP_OFF(SV.data) > g_from, "the object was consumed");
    VP_REACH("object");
  }
}
static int vp_parse_json(struct GeoArrowMetadataView* m, struct ArrowStringView* s) {
  VP_ASSERT(CUR(s), "a valid cursor");
  VP_ASSERT(m->edge_type == 0 && m->crs_type == 0 && m->crs.size_bytes == 0 && m->crs.data == 0, "from the defaults");
  m->edge_type = vp_int(); m->crs_type = vp_int(); m->crs.size_bytes = vp_i64();
  if (m->crs.size_bytes == 0) m->crs.data = 0; else { size_t o = vp_size(); VP_ASSUME(o <= g_total); m->crs.data = g_text + o; }
  VP_ASSUME(META_OK(m));
  SET_CUR(s, vp_room(VP_OFF(s->data)))
  return vp_bool() ? EINVAL : 0;
}
int ArrowErrorSet(struct ArrowError* error, const char* fmt, ...) { return EINVAL; }
void harness_view(void) {
  start();
  struct GeoArrowMetadataView m;
  struct GeoArrowStringView text = {g_text, (int64_t)g_total};
  int rc = GeoArrowMetadataViewInit(&m, text, &E);
  if (rc == 0) {
    VP_ASSERT(META_OK(&m), "the values are known and the views inside the text");
    VP_ASSERT(m.metadata.data == g_text && m.metadata.size_bytes == (int64_t)g_total, "the text");
    VP_ASSERT(m.crs.size_bytes != 0 || m.crs_type == 0, "no system, no type");
    if (g_total == 0) VP_ASSERT(m.edge_type == 0 && m.crs_type == 0, "the defaults");
    VP_REACH("view");
  }
}

/* --- C17 --- */
static void vp_write_view(struct ArrowStringView sv, char** out) {
  VP_ASSERT(VP_SAME(*out, g_out) && sv.size_bytes >= 0 && VP_OFF(*out) <= g_out_n && (uint64_t)sv.size_bytes <= g_out_n - VP_OFF(*out), "text is written inside the buffer");
  VP_ASSERT(sv.size_bytes == 0 || __CPROVER_r_ok(sv.data, 1), "from text");
  VP_ASSERT(sv.data != g_crs || sv.size_bytes == g_crs_n, "the whole system");
  *out += sv.size_bytes;
  g_out_at = VP_OFF(*out) + 1; /* where an escaped system would begin */
}
static struct GeoArrowMetadataView M;
static char g_byte;
static void view(void) {
  vp_init();
  M.edge_type = vp_int();
  M.crs_type = vp_int();
  VP_ASSUME((int)M.edge_type >= 0 && M.edge_type <= 5 && (int)M.crs_type >= 0 && M.crs_type <= 5);
  g_crs_n = vp_i64();
  VP_ASSUME(g_crs_n >= 0 && g_crs_n <= (int64_t)VP_MAX_OBJ);
  g_crs = vp_alloc(g_crs_n);
  M.crs.data = g_crs;
  M.crs.size_bytes = g_crs_n;
}
static const int EDGE_LEN[] = {6, 9, 8, 6, 7, 6}, TYPE_LEN[] = {4, 7, 8, 9, 14, 4};
/* the size of the text, from its grammar */
static int64_t want(void) {
  int e = M.edge_type != 0, t = M.crs_type > 1, c = M.crs_type != 0, n = e + t + c;
  int64_t size = 2 + (n > 1 ? n - 1 : 0);
  if (e) size += 8 + 2 + EDGE_LEN[M.edge_type];
  if (t) size += 11 + 2 + TYPE_LEN[M.crs_type];
  if (c) size += 6 + (g_crs_n == 0 || (g_crs[0] != '{' && g_crs[0] != '"') ? 2 + g_crs_n + ESC(g_crs_n) : g_crs_n);
  return size;
}
void harness_size(void) {
  view();
  int e = M.edge_type != 0, t = M.crs_type > 1;
  esc_facts(-1);
  g_size0 = 2 + (e ? 10 + EDGE_LEN[M.edge_type] : 0) + (t ? 13 + TYPE_LEN[M.crs_type] : 0) + 6 + 2 + g_crs_n;
  int64_t size = GeoArrowMetadataCalculateSerializedSize(&M);
  esc_facts(-1);
  VP_ASSERT(size == want(), "the size is that of the text");
  VP_REACH("size");
}
void harness_write(void) {
  view();
  esc_facts(-1);
  g_out_n = (size_t)want();
  g_out = vp_alloc(g_out_n);
  int64_t n = GeoArrowMetadataSerializeInternal(&M, g_out);
  VP_ASSERT(n == (int64_t)g_out_n, "exactly the announced bytes are written");
  VP_ASSERT(g_out[0] == '{' && g_out[g_out_n - 1] == '}', "an object");
  if (M.crs_type != 0 && (g_crs_n == 0 || (g_crs[0] != '{' && g_crs[0] != '"'))) {
    VP_ASSERT(g_out[g_out_n - 2] == '"' && g_out[g_out_at - 1] == '"', "between quotes");
    VP_REACH("escaped system");
  }
  VP_REACH("text");
}
static int64_t g_announced;
static int g_internal;
static int64_t vp_size_of(const struct GeoArrowMetadataView* m) { return g_announced; }
static int64_t vp_serialize(const struct GeoArrowMetadataView* m, char* out) {
  VP_ASSERT(m == &M && out == g_out, "into the buffer");
  VP_ASSERT((uint64_t)g_announced <= g_out_n, "the text fits");
  g_internal++;
  return g_announced;
}
void harness_serialize(void) {
  view();
  g_announced = vp_i64();
  VP_ASSUME(g_announced >= 2 && g_announced <= (int64_t)VP_MAX_OBJ);
  g_out_n = vp_size();
  VP_ASSUME(g_out_n <= VP_MAX_OBJ);
  g_out = g_out_n ? vp_alloc(g_out_n) : 0;
  g_w = vp_size();
  if (g_w < g_out_n) g_byte = g_out[g_w];
  int64_t n = GeoArrowMetadataSerialize(&M, g_out, (int64_t)g_out_n);
  VP_ASSERT(n == g_announced, "the announced size");
  VP_ASSERT(g_internal == ((uint64_t)g_announced <= g_out_n), "written if it fits");
  if (g_w < g_out_n) VP_ASSERT(g_out[g_w] == (g_w == (size_t)g_announced ? 0 : g_byte), "and terminated if there is room, nothing else is written");
  VP_REACH("serialize");
}
/* nanoarrow's metadata builder and the allocator, by contract */
static int g_alloc, g_free, g_bi, g_br, g_set;
static struct ArrowBuffer* g_builder;
void* ArrowMalloc(int64_t n) {
  VP_ASSERT(n == g_announced && g_alloc == 0, "a buffer of the announced size");
  if (vp_bool()) return 0;
  g_alloc++;
  g_out_n = (size_t)n;
  return g_out = vp_alloc(n);
}
void ArrowFree(void* p) { VP_ASSERT(p == g_out && g_alloc == 1 && g_free == 0, "the text is released once"); g_free++; }
ArrowErrorCode ArrowMetadataBuilderInit(struct ArrowBuffer* b, const char* metadata) {
  if (vp_bool()) return ENOMEM;
  g_bi++;
  g_builder = b;
  b->data = 0;
  b->allocator.free = 0;
  return 0;
}
static int g_builder_set;
ArrowErrorCode ArrowMetadataBuilderSet(struct ArrowBuffer* b, struct ArrowStringView key, struct ArrowStringView value) {
  VP_ASSERT(b == g_builder && g_bi == 1 && g_br == 0, "a live builder");
  VP_ASSERT(key.size_bytes == 24 && key.data[0] == 'A' && key.data[6] == 'e' && key.data[16] == 'm', "the extension metadata key");
  VP_ASSERT(value.data == g_out && value.size_bytes == g_announced && g_internal == 1 && g_free == 0, "the text is the value");
  if (vp_bool()) return ENOMEM;
  g_builder_set++;
  b->data = (uint8_t*)g_out;
  return 0;
}
static void vp_buffer_reset(struct ArrowBuffer* b) { VP_ASSERT(b == g_builder && g_bi == 1 && g_br == 0, "the builder is released once"); g_br++; }
static struct ArrowSchema SCH;
ArrowErrorCode ArrowSchemaSetMetadata(struct ArrowSchema* s, const char* metadata) {
  VP_ASSERT(s == &SCH && g_builder_set == 1 && g_br == 0, "the builder's text");
  if (vp_bool()) return ENOMEM;
  g_set++;
  return 0;
}
void harness_schema(void) {
  view();
  g_announced = vp_i64();
  VP_ASSUME(g_announced >= 2 && g_announced <= (int64_t)VP_MAX_OBJ);
  int rc = GeoArrowSchemaSetMetadata(&SCH, &M);
  VP_ASSERT(g_alloc == g_free && g_bi == g_br, "what was allocated is released");
  VP_ASSERT((rc == 0) == (g_set == 1), "success means that the metadata is set");
  if (rc == 0) VP_REACH("schema");
}
void harness_unescape(void) {
  view();
  g_out_n = vp_size();
  VP_ASSUME(g_out_n <= VP_MAX_OBJ);
  g_out = g_out_n ? vp_alloc(g_out_n) : 0;
  int64_t n = GeoArrowUnescapeCrs(M.crs, g_out, (int64_t)g_out_n);
  VP_ASSERT(n >= 0 && n <= g_crs_n, "no longer than the escaped text");
  if (g_crs_n > 0 && g_crs[0] == '"') VP_ASSERT(n <= (g_crs_n < 2 ? 0 : g_crs_n - 2), "without its quotes");
  else VP_ASSERT(n == g_crs_n, "text that is not quoted stays");
  if ((uint64_t)n < g_out_n) VP_ASSERT(g_out[n] == 0, "terminated if there is room");
  VP_REACH("unescape");
}
static void* vp_copy(void* dst, const void* src, size_t n) {
  VP_ASSERT((char*)dst == g_out && n <= g_out_n && (const char*)src == g_crs && n <= (size_t)g_crs_n, "copied inside both texts");
  return dst;
}
