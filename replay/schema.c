/* C18: schemas and types. */
#include "vpr.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
static int valid(uint32_t t) {
  if (t >= 100001 && t <= 100006) return 1;
  uint32_t c = t / 10000, d = t % 10000 / 1000, g = t % 1000;
  return c < 2 && d < 4 && ((g >= 1 && g <= 6) || (g == 990 && c == 0));
}
static uint32_t some_type(vpr* r) {
  switch (vpr_in(r, 0, 3)) {
    case 0: return (uint32_t)vpr_in(r, 100001, 100006);
    case 1: return (uint32_t)(vpr_in(r, 0, 3) * 1000 + (vpr_p(r, 15) ? 990 : vpr_in(r, 1, 6) + vpr_in(r, 0, 1) * 10000));
    case 2: return (uint32_t)(vpr_in(r, 0, 5) * 1000 + vpr_in(r, 0, 12) * 10000 + (vpr_p(r, 50) ? vpr_in(r, 0, 12) : vpr_in(r, 980, 1000)));
    default: return vpr_u32(r) >> vpr_in(r, 0, 31);
  }
}
static const char* const XN[8] = {0, "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon", 0};
static const char* ext_of(uint32_t t) {
  if (t >= 100001) return t == 100003 || t == 100004 || t == 100006 ? "geoarrow.wkt" : "geoarrow.wkb";
  return t % 1000 == 990 ? "geoarrow.box" : XN[t % 1000];
}
/* --- schemas of the driver's own, every text in a block of exactly its size --- */
typedef struct ArrowSchema sch;
static sch T[64];
static int nt;
static char* dup(const char* s) { char* p = (char*)malloc(strlen(s) + 1); strcpy(p, s); return p; }
static void rel(sch* s) {}
static sch* mk(const char* format, const char* name, int nk) {
  sch* s = &T[nt++];
  memset(s, 0, sizeof *s);
  s->format = dup(format);
  s->name = name ? dup(name) : 0;
  s->n_children = nk;
  s->children = nk ? (sch**)calloc(nk, sizeof(sch*)) : 0;
  s->release = rel;
  return s;
}
static sch* coords(const char* name, int d, int inter) {
  static const char* const D[] = {"xy", "xyz", "xym", "xyzm"};
  int n = (int)strlen(D[d]);
  sch* s;
  if (inter) {
    char f[8];
    sprintf(f, "+w:%d", n);
    s = mk(f, name, 1);
    s->children[0] = mk("g", D[d], 0);
    return s;
  }
  s = mk("+s", name, n);
  for (int i = 0; i < n; i++) { char b[2] = {D[d][i], 0}; s->children[i] = mk("g", b, 0); }
  return s;
}
static sch* storage(uint32_t t) {
  static const char* const F[] = {"z", "Z", "u", "U", "vz", "vu"};
  if (t > 100000) return mk(F[t - 100001], "", 0);
  int g = t % 1000, d = t % 10000 / 1000, inter = t / 10000;
  if (g == 990) {
    const char* D = d == 0 ? "xy" : d == 1 ? "xyz" : d == 2 ? "xym" : "xyzm";
    int n = (int)strlen(D);
    sch* s = mk("+s", "", 2 * n);
    for (int i = 0; i < 2 * n; i++) { char b[5]; sprintf(b, "%c%s", D[i % n], i < n ? "min" : "max"); s->children[i] = mk("g", b, 0); }
    return s;
  }
  int lists = g == 1 ? 0 : g == 2 || g == 4 ? 1 : g == 6 ? 3 : 2;
  sch* s = coords("", d, inter);
  while (lists--) { sch* l = mk("+l", "", 1); l->children[0] = s; s = l; }
  return s;
}
/* --- and what they are --- */
static int letters(sch* s, int n) {
  char d[5] = {0};
  for (int i = 0; i < n; i++) {
    sch* c = s->children[i];
    if (!c->name || strlen(c->name) != 1 || strcmp(c->format, "g")) return -1;
    d[i] = c->name[0];
  }
  return !strcmp(d, "xy") ? 0 : !strcmp(d, "xyz") ? 1 : !strcmp(d, "xym") ? 2 : !strcmp(d, "xyzm") ? 3 : -1;
}
static uint32_t recognise(sch* s, const char* x, size_t n) {
#define IS(lit) (n == strlen(lit) && !memcmp(x, lit, n))
  if ((IS("geoarrow.wkb") || IS("geoarrow.wkt")) && s->n_children) return 0;
  if (IS("geoarrow.wkb")) return !strcmp(s->format, "z") ? 100001 : !strcmp(s->format, "Z") ? 100002 : !strcmp(s->format, "vz") ? 100005 : 0;
  if (IS("geoarrow.wkt")) return !strcmp(s->format, "u") ? 100003 : !strcmp(s->format, "U") ? 100004 : !strcmp(s->format, "vu") ? 100006 : 0;
  if (IS("geoarrow.box")) {
    int k = (int)s->n_children / 2;
    if (strcmp(s->format, "+s") || (s->n_children != 4 && s->n_children != 6 && s->n_children != 8)) return 0;
    char d[5] = {0};
    for (int i = 0; i < 2 * k; i++) {
      sch* c = s->children[i];
      if (!c->name || strlen(c->name) != 4 || strcmp(c->format, "g") || strcmp(c->name + 1, i < k ? "min" : "max")) return 0;
      if (i < k) d[i] = c->name[0];
      else if (d[i - k] != c->name[0]) return 0;
    }
    return !strcmp(d, "xy") ? 990 : !strcmp(d, "xyz") ? 1990 : !strcmp(d, "xym") ? 2990 : !strcmp(d, "xyzm") ? 3990 : 0;
  }
  int g = 0;
  for (int i = 1; i <= 6; i++) if (IS(XN[i])) g = i;
  if (!g) return 0;
  int lists = g == 1 ? 0 : g == 2 || g == 4 ? 1 : g == 6 ? 3 : 2;
  while (lists--) {
    if (strcmp(s->format, "+l") || s->n_children != 1) return 0;
    s = s->children[0];
  }
  if (!strcmp(s->format, "+s")) {
    int d = s->n_children >= 2 && s->n_children <= 4 ? letters(s, (int)s->n_children) : -1;
    return d < 0 ? 0 : (uint32_t)(d * 1000 + g);
  }
  if (strncmp(s->format, "+w:", 3) || s->n_children != 1 || strcmp(s->children[0]->format, "g")) return 0;
  int k = atoi(s->format + 3);
  const char* nm = s->children[0]->name;
  int d = !nm ? -1 : !strcmp(nm, "xy") ? 0 : !strcmp(nm, "xyz") ? 1 : !strcmp(nm, "xym") ? 2 : !strcmp(nm, "xyzm") ? 3 : -1;
  if (d >= 0) { if (k != (d == 0 ? 2 : d == 3 ? 4 : 3)) return 0; }
  else d = k == 2 ? 0 : k == 3 ? 1 : k == 4 ? 3 : -1;
  return d < 0 ? 0 : (uint32_t)(10000 + d * 1000 + g);
}
static void view_is(const struct GeoArrowSchemaView* v, uint32_t t) {
  VPR_CHECK(v->type == t, "recognised as %u instead of %u", (unsigned)v->type, t);
  int ser = t > 100000;
  VPR_CHECK(v->geometry_type == (ser ? 0 : t % 1000) && v->dimensions == (ser ? 0 : t % 10000 / 1000 + 1) && v->coord_type == (ser ? 0 : t / 10000 + 1), "the parts of type %u", t);
}
static int own(vpr* r) {
  nt = 0;
  uint32_t t;
  do t = some_type(r); while (!valid(t));
  sch* s = storage(t);
  for (int m = (int)vpr_in(r, 0, 2); m > 0; m--) { /* another shape */
    static const char* const FM[] = {"g", "f", "+s", "+l", "+L", "+w:2", "+w:3", "+w:4", "+w:5", "i", "z", "u", "gg", "", "+", "+w", "l", "+ll", "+ss", "+w:1", "+vl"};
    static const char* const NM[] = {"x", "y", "z", "m", "", "xy", "xyz", "xym", "xyzm", "xmin", "xmax", "ymin", "zmax", "mmin", "xmi", "xminn", "xx", "yx", "q", "x ", "zm", "xmind", "min"};
    sch* c = &T[vpr_in(r, 0, nt - 1)];
    switch (vpr_in(r, 0, 3)) {
      case 0: free((void*)c->format); c->format = dup(FM[vpr_in(r, 0, 20)]); break;
      case 1: free((void*)c->name); c->name = vpr_p(r, 15) ? 0 : dup(NM[vpr_in(r, 0, 22)]); break;
      case 2: if (c->n_children > 1) { /* two of them swapped */
        int i = (int)vpr_in(r, 0, c->n_children - 1), j = (int)vpr_in(r, 0, c->n_children - 1);
        sch* q = c->children[i]; c->children[i] = c->children[j]; c->children[j] = q;
        break;
      } /* fall through */
      default: { /* fewer or more */
        int k = (int)vpr_in(r, 0, 9), o = (int)c->n_children;
        sch** kids = (sch**)calloc(k ? k : 1, sizeof(sch*));
        for (int i = 0; i < k; i++) kids[i] = i < o ? c->children[i] : nt < 60 ? mk("g", NM[vpr_in(r, 0, 8)], 0) : 0;
        if (k && !kids[k - 1]) { free(kids); break; }
        free(c->children);
        c->children = kids;
        c->n_children = k;
      }
    }
  }
  /* the extension: the type's own, another's, or one with something before, after or missing */
  char buf[64];
  const char* x = ext_of(vpr_p(r, 85) ? t : (uint32_t)vpr_in(r, 1, 6));
  strcpy(buf, x);
  size_t n = strlen(x);
  if (vpr_p(r, 20)) switch (vpr_in(r, 0, 3)) {
    case 0: n -= (size_t)vpr_in(r, 1, (int64_t)n); break;
    case 1: strcat(buf, "xyz"); n += (size_t)vpr_in(r, 1, 3); break;
    case 2: buf[vpr_in(r, 0, n - 1)] ^= (char)(1 << vpr_in(r, 0, 6)); break;
    default: n++; break; /* its terminator */
  }
  char* exact = (char*)malloc(n ? n : 1);
  memcpy(exact, buf, n);
  struct GeoArrowStringView sv = {exact, (int64_t)n};
  struct GeoArrowSchemaView v;
  struct GeoArrowError e;
  memset(&v, 0xAA, sizeof v);
  memset(&e, 0, sizeof e);
  int rc = GeoArrowSchemaViewInitFromStorage(&v, s, sv, &e);
  uint32_t want = recognise(s, exact, n);
  VPR_CHECK((rc == 0) == (want != 0), "schema %s with %lld children as '%.*s' (of type %u): result %d, it is %u: %s", s->format, (long long)s->n_children, (int)n, exact, t, rc, want, e.message);
  if (rc == 0) {
    view_is(&v, want);
    VPR_CHECK(v.extension_name.data == exact && v.extension_name.size_bytes == (int64_t)n, "the extension");
  } else VPR_CHECK(rc == EINVAL && e.message[0], "refused with a reason");
  free(exact);
  for (int i = 0; i < nt; i++) { free((void*)T[i].format); free((void*)T[i].name); free(T[i].children); }
  return 1;
}
static int made(vpr* r) {
  uint32_t t = some_type(r);
  int ext = vpr_p(r, 50);
  struct ArrowSchema s;
  struct GeoArrowSchemaView v;
  struct GeoArrowError e;
  memset(&s, 0xAA, sizeof s);
  s.release = 0;
  memset(&v, 0xAA, sizeof v);
  int fail = vpr_p(r, 30);
  vpr_fail_in = fail ? vpr_in(r, 1, 40) : 0;
  int rc = ext ? GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)t) : GeoArrowSchemaInit(&s, (enum GeoArrowType)t);
  int hit = fail && vpr_fail_in == 0;
  vpr_fail_in = 0;
  VPR_CHECK(rc == 0 || hit || !valid(t), "no schema for type %u", t);
  VPR_CHECK(rc != 0 || (valid(t) && !hit), "a schema for type %u%s", t, hit ? " although an allocation failed" : "");
  if (rc == 0) {
    struct GeoArrowStringView sv = {ext_of(t), (int64_t)strlen(ext_of(t))};
    if (ext) rc = GeoArrowSchemaViewInit(&v, &s, &e);
    else rc = GeoArrowSchemaViewInitFromStorage(&v, &s, sv, &e);
    VPR_CHECK(rc == 0, "the schema of type %u is refused: %s", t, e.message);
    view_is(&v, t);
    VPR_CHECK(v.extension_name.size_bytes == sv.size_bytes && !memcmp(v.extension_name.data, sv.data, (size_t)sv.size_bytes), "the extension of type %u", t);
    if (ext) VPR_CHECK(v.extension_metadata.size_bytes == 2 && !memcmp(v.extension_metadata.data, "{}", 2), "the metadata");
    else VPR_CHECK(GeoArrowSchemaViewInit(&v, &s, &e) == EINVAL, "a schema without an extension is refused");
  }
  if (s.release) s.release(&s);
  struct GeoArrowSchemaView w;
  memset(&w, 0xAA, sizeof w);
  rc = GeoArrowSchemaViewInitFromType(&w, (enum GeoArrowType)t);
  if (valid(t)) { VPR_CHECK(rc == 0, "type %u", t); view_is(&w, t); VPR_CHECK(!strcmp(w.extension_name.data, ext_of(t)) && w.extension_name.size_bytes == (int64_t)strlen(ext_of(t)), "the extension of type %u", t); }
  else if (t == 0) VPR_CHECK(rc == 0 && w.type == 0 && w.extension_name.data == 0, "no type");
  return 1;
}
int vp_case(vpr* r) { return vpr_p(r, 65) ? own(r) : made(r); }
