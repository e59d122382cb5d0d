/* C18: schemas and types. VP_GEOM: the geometry type of the round trip. */
#include "vp.h"
#ifndef VP_GEOM
#define VP_GEOM 1
#endif
#include "geoarrow/geoarrow_type.h"
#include "nanoarrow/nanoarrow.h"
#include "geoarrow/geoarrow.h"
static size_t vp_strlen(const char* s);
static int vp_point_struct(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* n);
static int vp_point_list(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* n);
static const char* vp_ext_name(enum GeoArrowType t);
static enum GeoArrowGeometryType vp_geometry_of(enum GeoArrowType t);
static enum GeoArrowDimensions vp_dims_of(enum GeoArrowType t);
static enum GeoArrowCoordType vp_coord_of(enum GeoArrowType t);
static int vp_rec(struct ArrowSchema* s, enum GeoArrowCoordType c, const char* dims, int n, const char** names);
static int vp_leaf(struct ArrowSchema* s, const char* dims);
static int vp_box_child(const struct ArrowSchema* s, char* dim, const char** minmax, int64_t i, struct ArrowError* e);
static int vp_nested(const struct ArrowSchema* s, int n, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* x);
static int vp_box(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e);
static int vp_list_of(struct ArrowSchema* s, enum GeoArrowCoordType c, const char* dims, int n, const char** names);
static int vp_rect(struct ArrowSchema* s, const char* dims);
static int vp_coord_struct(struct ArrowSchema* s, const char* dims);
static int vp_coord_list(struct ArrowSchema* s, const char* dims);
static int vp_internal(struct GeoArrowSchemaView* v, const struct ArrowSchema* s, struct ArrowSchemaView* na, struct ArrowError* e);
static int vp_init_type(struct ArrowSchema* s, enum GeoArrowType t);
static void vp_buffer_reset(struct ArrowBuffer* b);
#include "geoarrow/schema.c"
#include "geoarrow/schema_view.c"
int ArrowErrorSet(struct ArrowError* e, const char* fmt, ...) { return EINVAL; }

static struct ArrowSchema S;
static struct GeoArrowSchemaView V;
static struct ArrowError E;
/* --- texts: any bytes up to a terminator, of any length --- */
#define TEXTS 9
static char* g_text[TEXTS];
static size_t g_len[TEXTS], g_xl;
static int g_texts;
static char* text(void) {
  size_t n = vp_size();
  VP_ASSUME(n <= ((size_t)1 << 40));
  char* p = (char*)vp_alloc(n + 1);
  VP_ASSUME(p[n] == 0);
  for (int i = 0; i < 8; i++) if (n > i) VP_ASSUME(p[i] != 0);
  g_text[g_texts] = p;
  g_len[g_texts++] = n;
  return p;
}
/* the C standard's: the distance to the terminator */
static char g_name[8][8]; /* a text of which the first 7 characters are seen, or all of them */
static const char* g_ext;
static size_t vp_strlen(const char* s) {
  if (g_ext) { VP_ASSERT(s == g_ext, "the length of the extension's name"); return g_xl; }
  for (int i = 0; i < 8; i++)
    if (s == g_name[i]) {
      for (int j = 0; j < 7; j++) if (!s[j]) return (size_t)j;
      size_t n = vp_size();
      VP_ASSUME(n >= 7 && n <= ((size_t)1 << 40));
      return n;
    }
  for (int i = 0; i < TEXTS; i++) if (i < g_texts && s == g_text[i]) return g_len[i];
  VP_ASSERT(0, "strlen of a text");
  return 0;
}
static _Bool eq(const char* a, const char* lit) {
  for (int i = 0; i < 32; i++) { if (a[i] != lit[i]) return 0; if (!lit[i]) return 1; }
  return 0;
}
#define DIM_OF(a, b, c, d) ((a) == 'x' && (b) == 'y' ? ((c) == 0 ? 1 : (c) == 'z' ? ((d) == 0 ? 2 : (d) == 'm' ? 4 : 0) : (c) == 'm' && (d) == 0 ? 3 : 0) : 0)
static struct ArrowSchema g_child[8];
static struct ArrowSchema* g_childp[8];
static int g_svi_rc;
static struct ArrowStringView g_na_ext;
static int g_sized, g_svi; /* nanoarrow's reading of the format */
ArrowErrorCode ArrowSchemaViewInit(struct ArrowSchemaView* v, const struct ArrowSchema* s, struct ArrowError* e) {
  VP_ASSERT(s == &S && e == &E, "the schema");
  g_svi++;
  struct ArrowSchemaView any;
  *v = any;
  v->fixed_size = g_sized;
  g_na_ext = v->extension_name;
  return g_svi_rc = vp_bool() ? EINVAL : 0;
}
static void schema(int n) {
  vp_init();
  struct ArrowSchema any;
  S = any;
  S.format = text();
  for (int i = 0; i < n; i++) {
    struct ArrowSchema c;
    g_child[i] = c;
    g_childp[i] = &g_child[i];
  }
  S.children = g_childp;
  struct GeoArrowSchemaView v;
  V = v;
}
/* coordinates in a struct: xy, xyz, xym, xyzm, each a double */
void harness_struct(void) {
  schema(4);
  const int64_t n = S.n_children; /* any */
  _Bool ok = n >= 2 && n <= 4;
  char d[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; i++) {
    g_child[i].name = vp_bool() ? text() : 0;
    g_child[i].format = text();
    if (i < n) {
      const _Bool one = g_child[i].name && g_child[i].name[0] && !g_child[i].name[1];
      ok = ok && one && eq(g_child[i].format, "g");
      if (one) d[i] = g_child[i].name[0];
    }
  }
  const int dims = DIM_OF(d[0], d[1], d[2], d[3]);
  int rc = GeoArrowParsePointStruct(&S, &V, &E, "x");
  VP_ASSERT((rc == 0) == (ok && dims != 0), "exactly the structs of doubles named x, y, z, m in order");
  if (rc) { VP_ASSERT(rc == EINVAL, "refused"); VP_REACH("refused"); return; }
  VP_ASSERT(V.dimensions == dims && V.coord_type == GEOARROW_COORD_TYPE_SEPARATE, "its dimensions");
  VP_REACH("struct");
}
/* coordinates in a fixed-size list: the child's name or else the size says the dimensions, and both agree */
void harness_list(void) {
  schema(1);
  const int64_t n = S.n_children;
  g_sized = vp_int();
  g_child[0].name = vp_bool() ? text() : 0;
  g_child[0].format = text();
  int dims = 0;
  const char* s = g_child[0].name;
  if (s) dims = eq(s, "xy") ? 1 : eq(s, "xyz") ? 2 : eq(s, "xym") ? 3 : eq(s, "xyzm") ? 4 : 0;
  if (dims) { if (g_sized != (dims == 1 ? 2 : dims == 4 ? 4 : 3)) dims = 0; }
  else dims = g_sized == 2 ? 1 : g_sized == 3 ? 2 : g_sized == 4 ? 4 : 0;
  const _Bool ok = n == 1 && eq(g_child[0].format, "g");
  int rc = GeoArrowParsePointFixedSizeList(&S, &V, &E, "x");
  VP_ASSERT(rc != 0 || (ok && dims != 0 && g_svi == 1), "a fixed-size list of doubles, of as many as there are dimensions");
  VP_ASSERT(rc == 0 || rc == EINVAL, "refused or not");
  if (rc) { VP_REACH("refused"); return; }
  VP_ASSERT(V.dimensions == dims && V.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED, "its dimensions");
  VP_REACH("list");
}
/* n lists of one child each, coordinates inside */
static int g_point; /* 1: struct, 2: list */
static const struct ArrowSchema* g_at;
static int vp_point_struct(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* n) { VP_ASSERT(g_point == 0 && v == &V, "once"); g_point = 1; g_at = s; return vp_bool() ? EINVAL : 0; }
static int vp_point_list(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* n) { VP_ASSERT(g_point == 0 && v == &V, "once"); g_point = 2; g_at = s; return vp_bool() ? EINVAL : 0; }
void harness_nested(void) {
  schema(3);
  const int n = vp_int();
  VP_ASSUME(n >= 0 && n <= 3);
  const struct ArrowSchema* at = &S;
  _Bool ok = 1;
  for (int i = 0; i < 3; i++) {
    g_child[i].format = text();
    (i ? &g_child[i - 1] : &S)->children = &g_childp[i];
  }
  g_child[2].children = 0;
  for (int i = 0; i < 3; i++)
    if (i < n) {
      ok = ok && eq(at->format, "+l") && at->n_children == 1;
      at = &g_child[i];
    }
  const int p = eq(at->format, "+s") ? 1 : at->format[0] == '+' && at->format[1] == 'w' && at->format[2] == ':' ? 2 : 0;
  int rc = GeoArrowParseNestedSchema(&S, n, &V, &E, "x");
  if (!ok || !p) { VP_ASSERT(rc == EINVAL && g_point == 0, "another shape is refused"); VP_REACH("refused"); return; }
  VP_ASSERT(g_point == p && g_at == at, "the coordinates at that level, as what they are");
  VP_REACH("nested");
}
/* a box: struct of 4, 6 or 8 doubles, the minima of the dimensions and then the maxima. A child by its contract, shown in harness_box_child:
   refused, or a double with a name of four characters, the first of which is the dimension, and the rest */
static _Bool g_good[8];
static int vp_box_child(const struct ArrowSchema* s, char* dim, const char** minmax, int64_t i, struct ArrowError* e) {
  VP_ASSERT(i >= 0 && i < 8 && s == &g_child[i] && e == &E, "the child at that place");
  if (!g_good[i]) return EINVAL;
  *dim = g_name[i][0];
  *minmax = &g_name[i][1];
  return 0;
}
void harness_box_child(void) {
  schema(0);
  char nm[8], old = 'q';
  for (int j = 0; j < 7; j++) g_name[0][j] = nm[j];
  S.name = vp_bool() ? &g_name[0][0] : (char*)0;
  const char* rest = 0;
  const _Bool four = S.name && S.name[0] && S.name[1] && S.name[2] && S.name[3] && !S.name[4];
  int rc = GeoArrowParseBoxChild(&S, &old, &rest, vp_i64(), &E);
  VP_ASSERT((rc == 0) == (four && eq(S.format, "g")), "a double with a name of four characters");
  if (rc) { VP_ASSERT(rc == EINVAL, "refused"); VP_REACH("refused"); return; }
  VP_ASSERT(old == S.name[0] && rest == S.name + 1, "its dimension, and the rest of the name");
  VP_REACH("child");
}
#ifndef VP_KIDS
#define VP_KIDS 4
#endif
void harness_box(void) {
  schema(8);
  int64_t n = VP_KIDS;
  if (n == 0) { n = vp_i64(); VP_ASSUME(n != 4 && n != 6 && n != 8); }
  S.n_children = n;
  if (!VP_KIDS) S.children = 0;
  enum { K = VP_KIDS / 2 };
  char d[4] = {0, 0, 0, 0};
  _Bool ok = K != 0 && eq(S.format, "+s");
  for (int i = 0; i < 8; i++) {
    char nm[8];
    for (int j = 0; j < 4; j++) { g_name[i][j] = nm[j]; VP_ASSUME(nm[j] != 0); }
    g_name[i][4] = 0;
    g_good[i] = vp_bool();
    g_child[i].name = g_name[i];
  }
  for (int i = 0; i < K; i++) {
    const char *a = g_name[i], *b = g_name[K + i];
    ok = ok && g_good[i] && g_good[K + i] && eq(a + 1, "min") && eq(b + 1, "max") && a[0] == b[0];
    d[i] = a[0];
  }
  const int dims = DIM_OF(d[0], d[1], d[2], d[3]);
  int rc = GeoArrowParseBox(&S, &V, &E);
  VP_ASSERT((rc == 0) == (ok && dims != 0), "exactly the structs of minima and maxima in order");
  if (rc) { VP_ASSERT(rc == EINVAL, "refused"); VP_REACH("refused"); return; }
  VP_ASSERT(V.dimensions == dims && V.coord_type == GEOARROW_COORD_TYPE_SEPARATE, "its dimensions");
#if VP_KIDS
  VP_REACH("box");
#endif
}
/* --- which extension is what --- */
static int g_levels = -1, g_boxes, g_sub, g_d, g_c;
static int sub(struct GeoArrowSchemaView* v) {
  g_sub = vp_bool() ? EINVAL : 0;
  g_d = vp_int(), g_c = vp_int();
  VP_ASSUME(g_d >= 1 && g_d <= 4 && g_c >= 1 && g_c <= (g_boxes ? 1 : 2));
  v->dimensions = g_d, v->coord_type = g_c;
  return g_sub;
}
static int vp_nested(const struct ArrowSchema* s, int n, struct GeoArrowSchemaView* v, struct ArrowError* e, const char* x) { VP_ASSERT(s == &S && v == &V && g_levels < 0, "the schema"); g_levels = n; return sub(v); }
static int vp_box(const struct ArrowSchema* s, struct GeoArrowSchemaView* v, struct ArrowError* e) { VP_ASSERT(s == &S && v == &V && !g_boxes, "the schema"); g_boxes = 1; return sub(v); }
static _Bool is(const char* p, int64_t n, const char* lit) {
  int i = 0;
  for (; i < 25 && lit[i]; i++) if (i >= n || p[i] != lit[i]) return 0;
  return n == i;
}
void harness_internal(void) {
  vp_init();
  struct ArrowSchemaView na;
  const int64_t n = vp_i64();
  VP_ASSUME(n >= 0 && n <= ((int64_t)1 << 40));
  const char* x = (const char*)vp_alloc((size_t)n); /* not terminated */
  na.extension_name.data = x;
  na.extension_name.size_bytes = n;
  int g = is(x, n, "geoarrow.point") ? 1 : is(x, n, "geoarrow.linestring") ? 2 : is(x, n, "geoarrow.polygon") ? 3 : is(x, n, "geoarrow.multipoint") ? 4 : is(x, n, "geoarrow.multilinestring") ? 5 : is(x, n, "geoarrow.multipolygon") ? 6 : is(x, n, "geoarrow.box") ? 990 : 0;
  int t = 0;
  if (is(x, n, "geoarrow.wkt")) t = na.type == NANOARROW_TYPE_STRING ? GEOARROW_TYPE_WKT : na.type == NANOARROW_TYPE_LARGE_STRING ? GEOARROW_TYPE_LARGE_WKT : na.type == NANOARROW_TYPE_STRING_VIEW ? GEOARROW_TYPE_WKT_VIEW : 0;
  if (is(x, n, "geoarrow.wkb")) t = na.type == NANOARROW_TYPE_BINARY ? GEOARROW_TYPE_WKB : na.type == NANOARROW_TYPE_LARGE_BINARY ? GEOARROW_TYPE_LARGE_WKB : na.type == NANOARROW_TYPE_BINARY_VIEW ? GEOARROW_TYPE_WKB_VIEW : 0;
  int rc = GeoArrowSchemaViewInitInternal(&V, &S, &na, &E);
  VP_ASSERT(rc == 0 || rc == EINVAL, "refused or not");
  if (g) {
    const int levels = g == 990 || g == 1 ? 0 : g == 2 || g == 4 ? 1 : g == 6 ? 3 : 2;
    VP_ASSERT(g == 990 ? g_boxes && g_levels < 0 : !g_boxes && g_levels == levels, "the storage of the type, so many levels of lists");
    VP_ASSERT(rc == g_sub, "refused if the storage is");
    if (rc == 0) VP_ASSERT(V.type == (g_d - 1) * 1000 + (g_c - 1) * 10000 + g && V.geometry_type == g && V.dimensions == g_d && V.coord_type == g_c, "the type");
    VP_REACH("geometry");
  } else {
    VP_ASSERT((rc == 0) == (t != 0), "serialized, in binary or string storage, or refused");
    if (rc == 0) { VP_ASSERT(V.type == t && V.geometry_type == 0 && V.dimensions == 0 && V.coord_type == 0, "the type"); VP_REACH("serialized"); }
  }
  if (rc == 0) VP_ASSERT(V.extension_name.data == x && V.extension_name.size_bytes == n && V.extension_metadata.data == na.extension_metadata.data && V.extension_metadata.size_bytes == na.extension_metadata.size_bytes, "the extension");
  else VP_REACH("refused");
}
/* --- the ways in --- */
static int g_int, g_int_rc, g_from_schema;
static const char* g_xd;
static int64_t g_xn;
static struct GeoArrowError GE;
static int vp_internal(struct GeoArrowSchemaView* v, const struct ArrowSchema* s, struct ArrowSchemaView* na, struct ArrowError* e) {
  if (g_from_schema) { g_xd = g_na_ext.data; g_xn = g_na_ext.size_bytes; }
  VP_ASSERT(v == &V && s == &S && g_int++ == 0 && g_svi == 1 && g_svi_rc == 0 && na->extension_name.data == g_xd && na->extension_name.size_bytes == g_xn, "the schema and its extension");
  return g_int_rc = vp_bool() ? EINVAL : 0;
}
static int g_svrc;
/* --- building a schema --- */
static int g_made, g_mk, g_mn, g_mc, g_mrc;
static const char* g_md;
static const char** g_mnames;
static int made(int what, const char* dims) { VP_ASSERT(!g_made, "once"); g_made = what; g_md = dims; return g_mrc = vp_bool() ? ENOMEM : 0; }
static int vp_list_of(struct ArrowSchema* s, enum GeoArrowCoordType c, const char* dims, int n, const char** names) {
  g_mc = c, g_mn = n;
  VP_ASSERT(s == &S && n >= 1 && n <= 3, "lists");
  const char* want[3] = {g_mk == 2 ? "vertices" : g_mk == 3 ? "rings" : g_mk == 4 ? "points" : g_mk == 5 ? "linestrings" : "polygons", g_mk == 6 ? "rings" : "vertices", "vertices"};
  for (int i = 0; i < 3; i++) if (i < n) VP_ASSERT(eq(names[i], want[i]), "the names of the specification");
  const int rc = made(1, dims);
  return c == 1 || c == 2 ? rc : (g_mrc = EINVAL);
}
static int vp_rect(struct ArrowSchema* s, const char* dims) { VP_ASSERT(s == &S, "the schema"); return made(2, dims); }
static int vp_coord_struct(struct ArrowSchema* s, const char* dims) { VP_ASSERT(s == &S, "the schema"); return made(3, dims); }
static int vp_coord_list(struct ArrowSchema* s, const char* dims) { VP_ASSERT(s == &S, "the schema"); return made(4, dims); }
static int g_na;
#ifdef VP_FAIL
/* any of nanoarrow's operations may fail: the function succeeds exactly if none did, and does nothing after a failure */
static struct ArrowSchema KID;
static struct ArrowSchema* KIDP[8];
static int g_fails, g_ops;
static int op(void) { VP_ASSERT(g_fails == 0, "nothing after a failure"); g_ops++; if (vp_bool()) { g_fails++; return ENOMEM; } return 0; }
static void kids(struct ArrowSchema* s, int64_t n) { VP_ASSERT(n >= 1 && n <= 8, "children"); for (int i = 0; i < 8; i++) KIDP[i] = &KID; s->children = KIDP; s->n_children = n; }
void ArrowSchemaInit(struct ArrowSchema* s) {}
ArrowErrorCode ArrowSchemaAllocateChildren(struct ArrowSchema* s, int64_t n) { if (op()) return ENOMEM; kids(s, n); return 0; }
ArrowErrorCode ArrowSchemaSetFormat(struct ArrowSchema* s, const char* f) { return op(); }
ArrowErrorCode ArrowSchemaSetName(struct ArrowSchema* s, const char* n) { VP_ASSERT(s == &KID && __CPROVER_r_ok(n, 1), "a name"); return op(); }
ArrowErrorCode ArrowSchemaSetType(struct ArrowSchema* s, enum ArrowType t) { return op(); }
ArrowErrorCode ArrowSchemaInitFromType(struct ArrowSchema* s, enum ArrowType t) { return op(); }
ArrowErrorCode ArrowSchemaSetTypeFixedSize(struct ArrowSchema* s, enum ArrowType t, int32_t n) { if (op()) return ENOMEM; kids(s, 1); return 0; }
static int vp_rec(struct ArrowSchema* s, enum GeoArrowCoordType c, const char* dims, int n, const char** names) { return op(); }
static int vp_leaf(struct ArrowSchema* s, const char* dims) { VP_ASSERT(s == &S, "the schema"); return op(); }
void harness_fail(void) {
  vp_init();
  static const char* names[2] = {"a", "b"};
  int rc;
  for (int i = 2; i <= 4; i++) {
    g_fails = g_ops = 0;
    const char* dims = i == 2 ? "xy" : i == 3 ? "xyz" : "xyzm";
#if VP_FAIL == 1
    rc = GeoArrowSchemaInitCoordFixedSizeList(&S, dims);
#elif VP_FAIL == 2
    rc = GeoArrowSchemaInitCoordStruct(&S, dims);
#elif VP_FAIL == 3
    rc = GeoArrowSchemaInitRect(&S, dims);
#else
    const int n = vp_int(), c = vp_int();
    VP_ASSUME(n >= 0 && n <= 3);
    rc = GeoArrowSchemaInitListOf(&S, (enum GeoArrowCoordType)c, dims, n, names);
    if (n == 0 && c != 1 && c != 2) { VP_ASSERT(rc == EINVAL && g_ops == 0, "no such coordinates"); continue; }
#endif
    VP_ASSERT((rc == 0) == (g_fails == 0), "fails exactly if a part of it fails");
    if (rc == 0) VP_REACH("made");
    else VP_REACH("failed");
  }
}
#else
#ifdef VP_TREE
/* nanoarrow's schemas, concretely */
static struct ArrowSchema N[16];
static struct ArrowSchema* NP[16];
static char NM[16][13];
static int g_pool, g_np;
static int64_t g_failat, g_ops;
static int op(void) { return ++g_ops == g_failat ? ENOMEM : 0; }
void ArrowSchemaInit(struct ArrowSchema* s) { s->format = 0; s->name = 0; s->children = 0; s->n_children = 0; s->flags = ARROW_FLAG_NULLABLE; }
ArrowErrorCode ArrowSchemaAllocateChildren(struct ArrowSchema* s, int64_t n) {
  if (op()) return ENOMEM;
  VP_ASSERT(s->n_children == 0 && g_np + n <= 16, "children");
  s->children = NP + g_np;
  s->n_children = n;
  for (int64_t i = 0; i < n; i++) { NP[g_np + i] = &N[g_pool + i]; N[g_pool + i].format = 0; N[g_pool + i].n_children = 0; }
  g_np += (int)n, g_pool += (int)n;
  return 0;
}
ArrowErrorCode ArrowSchemaSetFormat(struct ArrowSchema* s, const char* f) { if (op()) return ENOMEM; s->format = f; return 0; }
ArrowErrorCode ArrowSchemaSetName(struct ArrowSchema* s, const char* n) {
  if (op()) return ENOMEM;
  char* c = s == &S ? NM[15] : NM[s - N];
  for (int i = 0; i < 13; i++) { c[i] = n[i]; if (!n[i]) break; }
  s->name = c;
  return 0;
}
ArrowErrorCode ArrowSchemaSetType(struct ArrowSchema* s, enum ArrowType t) {
  if (op()) return ENOMEM;
  s->format = t == NANOARROW_TYPE_DOUBLE ? "g" : t == NANOARROW_TYPE_STRUCT ? "+s" : t == NANOARROW_TYPE_BINARY ? "z" : t == NANOARROW_TYPE_LARGE_BINARY ? "Z" : t == NANOARROW_TYPE_BINARY_VIEW ? "vz"
            : t == NANOARROW_TYPE_STRING ? "u" : t == NANOARROW_TYPE_LARGE_STRING ? "U" : t == NANOARROW_TYPE_STRING_VIEW ? "vu" : "?";
  return 0;
}
ArrowErrorCode ArrowSchemaInitFromType(struct ArrowSchema* s, enum ArrowType t) { ArrowSchemaInit(s); return ArrowSchemaSetType(s, t); }
ArrowErrorCode ArrowSchemaSetTypeFixedSize(struct ArrowSchema* s, enum ArrowType t, int32_t n) {
  if (op()) return ENOMEM;
  VP_ASSERT(t == NANOARROW_TYPE_FIXED_SIZE_LIST && n >= 2 && n <= 4, "a list of the dimensions");
  s->format = n == 2 ? "+w:2" : n == 3 ? "+w:3" : "+w:4";
  g_sized = n;
  s->children = NP + g_np;
  s->n_children = 1;
  NP[g_np] = &N[g_pool];
  N[g_pool].format = 0, N[g_pool].n_children = 0;
  g_np++, g_pool++;
  return 0;
}
static int vp_svi(struct ArrowSchemaView* v, const struct ArrowSchema* s, struct ArrowError* e) {
  v->fixed_size = g_sized;
  return 0;
}
static enum ArrowType storage(const char* f) {
  return eq(f, "z") ? NANOARROW_TYPE_BINARY : eq(f, "Z") ? NANOARROW_TYPE_LARGE_BINARY : eq(f, "vz") ? NANOARROW_TYPE_BINARY_VIEW : eq(f, "u") ? NANOARROW_TYPE_STRING : eq(f, "U") ? NANOARROW_TYPE_LARGE_STRING
       : eq(f, "vu") ? NANOARROW_TYPE_STRING_VIEW : NANOARROW_TYPE_NA;
}
static void round_trip(enum GeoArrowType t) {
  g_pool = g_np = 0;
  g_failat = 0;
  S.release = (void (*)(struct ArrowSchema*))1;
  VP_ASSERT(GeoArrowSchemaInit(&S, t) == 0, "a schema for the type");
  struct ArrowSchemaView na;
  const char* x = GeoArrowExtensionNameFromType(t);
  na.extension_name.data = x;
  na.extension_name.size_bytes = strlen(x);
  na.type = storage(S.format);
  VP_ASSERT(GeoArrowSchemaViewInitInternal(&V, &S, &na, &E) == 0 && V.type == t, "recognised as exactly that type");
}
void harness_round(void) {
  for (int d = 1; d <= 4; d++)
    for (int c = 1; c <= 2; c++)
      if (VP_GEOM != 990 || c == 1) round_trip((enum GeoArrowType)((d - 1) * 1000 + (c - 1) * 10000 + VP_GEOM));
  for (int k = 1; k <= 6; k++) round_trip((enum GeoArrowType)(100000 + k));
  VP_REACH("round");
}
#else
ArrowErrorCode ArrowSchemaInitFromType(struct ArrowSchema* s, enum ArrowType t) { VP_ASSERT(s == &S, "the schema"); g_na = t; return g_mrc = vp_bool() ? ENOMEM : 0; }
/* any type identifier */
void harness_init(void) {
  vp_init();
  const uint32_t t = vp_u32();
  const int ser = t >= 100001 && t <= 100006, low = t % 10000, g = low % 1000, d = low / 1000;
  const _Bool valid = t < 20000 && d < 4 && ((g >= 1 && g <= 6) || (g == 990 && t < 10000));
  g_mk = g;
  int rc = GeoArrowSchemaInit(&S, (enum GeoArrowType)t);
  if (ser) {
    VP_ASSERT(rc == g_mrc && g_na == (t == 100001 ? NANOARROW_TYPE_BINARY : t == 100002 ? NANOARROW_TYPE_LARGE_BINARY : t == 100003 ? NANOARROW_TYPE_STRING : t == 100004 ? NANOARROW_TYPE_LARGE_STRING
              : t == 100005 ? NANOARROW_TYPE_BINARY_VIEW : NANOARROW_TYPE_STRING_VIEW), "serialized storage");
    VP_REACH("serialized");
  } else if (!valid) { VP_ASSERT(rc == EINVAL || rc == ENOTSUP, "no such type"); VP_REACH("refused"); }
  else {
    VP_ASSERT(rc == g_mrc && eq(g_md, d == 0 ? "xy" : d == 1 ? "xyz" : d == 2 ? "xym" : "xyzm"), "the dimensions");
    if (g == 990) VP_ASSERT(g_made == 2, "a box");
    else if (g == 1) VP_ASSERT(g_made == (t >= 10000 ? 4 : 3), "coordinates");
    else VP_ASSERT(g_made == 1 && g_mn == (g == 6 ? 3 : g == 3 || g == 5 ? 2 : 1) && g_mc == (t >= 10000 ? 2 : 1), "so many lists of coordinates");
    VP_REACH("made");
  }
}
void harness_view(void) {
  vp_init();
  struct GeoArrowStringView x;
  x.data = vp_bool() ? (const char*)vp_alloc(1) : 0;
  x.size_bytes = vp_i64();
  g_xd = x.data, g_xn = x.size_bytes;
  int rc = GeoArrowSchemaViewInitFromStorage(&V, &S, x, (struct GeoArrowError*)&E);
  VP_ASSERT(g_int <= 1 && (rc == 0) == (g_int == 1 && g_int_rc == 0), "as its storage and that extension");
  VP_ASSERT(g_svi == 1 && (g_svi_rc != 0 || g_int == 1), "if nanoarrow accepts the storage");
  VP_REACH("storage");
}
void harness_view_extension(void) {
  vp_init();
  g_from_schema = 1;
  int rc = GeoArrowSchemaViewInit(&V, &S, (struct GeoArrowError*)&E);
  VP_ASSERT(g_int <= 1 && (rc == 0) == (g_int == 1 && g_int_rc == 0), "as its storage and the extension it has");
  VP_ASSERT(g_svi == 1 && (g_svi_rc != 0 || g_int == (g_na_ext.data != 0)), "which it must have");
  if (rc == 0) VP_REACH("extension");
}
/* the parts of a type are those C03's units show: here by their contracts */
static uint32_t g_type;
static int g_p[3];
static const char* vp_ext_name(enum GeoArrowType t) { VP_ASSERT((uint32_t)t == g_type, "of the type"); return g_ext; }
static enum GeoArrowGeometryType vp_geometry_of(enum GeoArrowType t) { VP_ASSERT((uint32_t)t == g_type, "of the type"); return (enum GeoArrowGeometryType)g_p[0]; }
static enum GeoArrowDimensions vp_dims_of(enum GeoArrowType t) { VP_ASSERT((uint32_t)t == g_type, "of the type"); return (enum GeoArrowDimensions)g_p[1]; }
static enum GeoArrowCoordType vp_coord_of(enum GeoArrowType t) { VP_ASSERT((uint32_t)t == g_type, "of the type"); return (enum GeoArrowCoordType)g_p[2]; }
void harness_type(void) {
  vp_init();
  const uint32_t t = g_type = vp_u32();
  for (int i = 0; i < 3; i++) g_p[i] = vp_int();
  struct GeoArrowSchemaView v;
  V = v;
  const char* x = g_ext = vp_bool() ? (const char*)vp_alloc(1) : 0;
  g_xl = vp_size();
  int rc = GeoArrowSchemaViewInitFromType(&V, (enum GeoArrowType)t);
  VP_ASSERT(rc == (t == 0 || x ? 0 : EINVAL), "a type with an extension, or none at all");
  VP_ASSERT(V.schema == 0 && V.extension_metadata.data == 0 && V.extension_metadata.size_bytes == 0, "no schema");
  if (rc == 0) {
    VP_ASSERT(V.type == t && V.geometry_type == g_p[0] && V.dimensions == g_p[1] && V.coord_type == g_p[2], "the parts of the type");
    if (t) VP_ASSERT(V.extension_name.data == x && V.extension_name.size_bytes == (int64_t)g_xl, "the name of its extension");
    else VP_ASSERT(V.extension_name.data == 0 && V.extension_name.size_bytes == 0, "no extension");
    VP_REACH("type");
  } else VP_REACH("refused");
}
/* --- with metadata --- */
static int g_mb, g_keys, g_set, g_t;
static char g_bytes[4];
ArrowErrorCode ArrowMetadataBuilderInit(struct ArrowBuffer* b, const char* m) { VP_ASSERT(m == 0 && !g_mb, "new metadata"); if (vp_bool()) return ENOMEM; g_mb = 1; b->data = (uint8_t*)g_bytes; return 0; }
static struct ArrowBuffer* g_buf;
ArrowErrorCode ArrowMetadataBuilderAppend(struct ArrowBuffer* b, struct ArrowStringView k, struct ArrowStringView v) {
  VP_ASSERT(g_mb == 1, "to the metadata");
  if (g_keys == 0) {
    const char* x = GeoArrowExtensionNameFromType((enum GeoArrowType)g_t);
    VP_ASSERT(is(k.data, k.size_bytes, "ARROW:extension:name") && is(v.data, v.size_bytes, x), "the extension's name");
  } else VP_ASSERT(g_keys == 1 && is(k.data, k.size_bytes, "ARROW:extension:metadata") && is(v.data, v.size_bytes, "{}"), "the extension's metadata");
  if (vp_bool()) return ENOMEM;
  g_keys++;
  return 0;
}
static void vp_buffer_reset(struct ArrowBuffer* b) { VP_ASSERT(g_mb == 1, "freed once"); g_mb = 2; }
static int vp_init_type(struct ArrowSchema* s, enum GeoArrowType t) { VP_ASSERT(s == &S && t == g_t && !g_made, "the storage of the type"); g_made = 1; return vp_bool() ? EINVAL : 0; }
ArrowErrorCode ArrowSchemaSetMetadata(struct ArrowSchema* s, const char* m) { VP_ASSERT(s == &S && m == g_bytes && g_keys == 2 && g_mb == 1 && g_made, "the metadata"); if (vp_bool()) return ENOMEM; g_set = 1; return 0; }
void harness_ext(void) {
  vp_init();
  g_t = vp_int();
  int rc = GeoArrowSchemaInitExtension(&S, (enum GeoArrowType)g_t);
  VP_ASSERT(g_mb != 1, "the metadata builder is freed");
  if (rc) { VP_ASSERT(!g_set, "refused"); VP_REACH("refused"); return; }
  VP_ASSERT(g_set && g_keys == 2 && g_made && g_mb == 2, "the storage of the type, with its extension");
  VP_REACH("ext");
}
#endif
#endif
