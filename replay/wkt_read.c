/* C05: reading WKT. Random, generated and mutated texts in exact-size heap copies; a visitor that
 * keeps a stack of what is open and may fail at any event. */
#include "vpr.h"
#include "gen.h"
#include "geoarrow/geoarrow.h"

static void puts_(vbuf* b, const char* s) { vb_put(b, s, strlen(s)); }
static void ws(vpr* r, vbuf* b) {
  static const char* k[] = {"", " ", "", "  ", "\n", "", "\t", "\r\n ", " \t "};
  puts_(b, k[vpr_u8(r) % 9]);
}
static const char* DIMS[] = {"", " Z", " M", " ZM"};
static const char* TYPES[] = {"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
static void num(vpr* r, vbuf* b) {
  char t[400];
  int k = vpr_u8(r) % 16;
  if (k < 8) snprintf(t, sizeof t, "%d", (int)vpr_in(r, -99, 99));
  else if (k < 11) snprintf(t, sizeof t, "%.17g", vpr_double(r));
  else if (k == 11) snprintf(t, sizeof t, "%s", vpr_p(r, 50) ? "nan" : "-inf");
  else if (k == 12) { int n = (int)vpr_in(r, 50, 90); memset(t, '1', n); t[n] = 0; }
  else if (k == 13) snprintf(t, sizeof t, "%.300f", vpr_double(r) / 1e10);
  else snprintf(t, sizeof t, "%.3f", vpr_in(r, -999, 999) / 8.0);
  puts_(b, t);
}
static int count(vpr* r) { int k = vpr_u8(r); return k < 200 ? 1 + k % 4 : k < 230 ? 60 + k % 10 : k < 240 ? 126 + k % 6 : 1; }
static void coord(vpr* r, vbuf* b, int nd) {
  for (int i = 0; i < nd; i++) { if (i) { vb_u8(b, ' '); ws(r, b); } num(r, b); }
}
static void seq(vpr* r, vbuf* b, int nd) {
  ws(r, b);
  if (vpr_p(r, 8)) { puts_(b, " EMPTY"); return; }
  vb_u8(b, '(');
  int n = count(r);
  if (b->n > 12000) n = 1;
  for (int i = 0; i < n; i++) { if (i) vb_u8(b, ','); ws(r, b); coord(r, b, nd); ws(r, b); }
  vb_u8(b, ')');
}
static void point(vpr* r, vbuf* b, int nd) {
  ws(r, b);
  if (vpr_p(r, 10)) { puts_(b, " EMPTY"); return; }
  vb_u8(b, '('); ws(r, b); coord(r, b, nd); ws(r, b); vb_u8(b, ')');
}
static void list(vpr* r, vbuf* b, int nd, int depth, void (*f)(vpr*, vbuf*, int)) {
  ws(r, b);
  if (vpr_p(r, 8)) { puts_(b, " EMPTY"); return; }
  vb_u8(b, '(');
  int n = 1 + vpr_u8(r) % 4;
  for (int i = 0; i < n; i++) { if (i) vb_u8(b, ','); ws(r, b); f(r, b, nd); ws(r, b); }
  vb_u8(b, ')');
}
static void poly(vpr* r, vbuf* b, int nd) { list(r, b, nd, 0, &seq); }
static void geom(vpr* r, vbuf* b, int depth) {
  int t = depth > 4 ? (int)vpr_in(r, 0, 5) : (int)vpr_in(r, 0, 6), d = (int)vpr_in(r, 0, 3);
  int nd = d == 0 ? 2 : d == 3 ? 4 : 3;
  if (vpr_p(r, 2)) nd = (int)vpr_in(r, 1, 5);
  ws(r, b);
  puts_(b, TYPES[t]);
  puts_(b, DIMS[d]);
  if (vpr_p(r, 10)) vb_u8(b, ' ');
  switch (t) {
    case 0: point(r, b, nd); break;
    case 1: seq(r, b, nd); break;
    case 2: poly(r, b, nd); break;
    case 3:
      if (vpr_p(r, 50)) seq(r, b, nd); else list(r, b, nd, 0, &point);
      break;
    case 4: list(r, b, nd, 0, &seq); break;
    case 5: list(r, b, nd, 0, &poly); break;
    default: {
      if (vpr_p(r, 10)) { puts_(b, " EMPTY"); break; }
      vb_u8(b, '(');
      int n = 1 + vpr_u8(r) % 3;
      for (int i = 0; i < n; i++) { if (i) vb_u8(b, ','); geom(r, b, depth + 1); ws(r, b); }
      vb_u8(b, ')');
    }
  }
  ws(r, b);
}
static void text(vpr* r, vbuf* b) {
  int how = vpr_u8(r) % 64;
  if (how == 0) { /* a tower of collections */
    int n = vpr_p(r, 50) ? 200000 : (int)vpr_in(r, 250, 260), closed = vpr_p(r, 60);
    for (int i = 0; i < n; i++) puts_(b, "GEOMETRYCOLLECTION (");
    puts_(b, "POINT (0 1)");
    if (closed) for (int i = 0; i < n; i++) vb_u8(b, ')');
    return;
  }
  if (how < 3) { /* anything */
    int n = (int)vpr_in(r, 0, 200);
    for (int i = 0; i < n; i++) vb_u8(b, vpr_u8(r));
    return;
  }
  if (how < 8) { /* words */
    static const char* k[] = {"(", ")", ",", " ", "EMPTY", "EMPT", "POINT", "Z", "M", "ZM", "1", "1.5", "-", "e", "\0", "LINESTRING", "POLYGON", "MULTIPOINT", "GEOMETRYCOLLECTION", "nan", "inf", "((", "))", ", ", "\n"};
    int n = (int)vpr_in(r, 0, 40);
    for (int i = 0; i < n; i++) puts_(b, k[vpr_u8(r) % 25]);
    return;
  }
  geom(r, b, 0);
  if (how < 40 || !b->n) return;
  int m = 1 + vpr_u8(r) % 3;
  for (int i = 0; i < m && b->n; i++) {
    size_t at = vpr_u32(r) % b->n;
    switch (vpr_u8(r) % 6) {
      case 0: b->n = at; break;                                                        /* cut */
      case 1: b->p[at] = "() ,Z1.E\0-+nM\t"[vpr_u8(r) % 15]; break;
      case 2: b->p[at] = vpr_u8(r); break;
      case 3: memmove(b->p + at, b->p + at + 1, b->n - at - 1); b->n--; break;          /* delete */
      case 4: { vb_u8(b, 0); memmove(b->p + at + 1, b->p + at, b->n - at - 1); b->p[at] = "() ,1E"[vpr_u8(r) % 6]; break; }
      default: puts_(b, vpr_p(r, 50) ? " )" : "x"); break;
    }
  }
}
/* --- visitor --- */
typedef struct { char* kind; int n, cap; int64_t events, fail_at; int failed, feats, feat_ends, roots, dims, code; uint64_t coords, closing; } vst;
static int ev(vst* s) {
  VPR_CHECK(!s->failed, "an event after a failed one");
  if (s->events++ == s->fail_at) { s->failed = 1; return s->code; }
  return 0;
}
static void push(vst* s, char k) {
  if (s->n == s->cap) { s->cap = s->cap * 2 + 64; s->kind = realloc(s->kind, s->cap); }
  s->kind[s->n++] = k;
}
static void pop(vst* s, char k) { VPR_CHECK(s->n > 0 && s->kind[s->n - 1] == k, "'%c' is ended but is not open", k); s->n--; }
#define ST vst* s = (vst*)v->private_data;
static int v_feat(struct GeoArrowVisitor* v) { ST s->feats++; VPR_CHECK(s->feats == 1, "two features"); return ev(s); }
static int v_null(struct GeoArrowVisitor* v) { ST VPR_FAIL("a null"); return ev(s); }
static int v_geom(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  ST
  VPR_CHECK(t >= 1 && t <= 7 && d >= 1 && d <= 4, "type %d dimensions %d", (int)t, (int)d);
  VPR_CHECK(s->feats == 1 && !s->feat_ends, "a geometry outside the feature");
  if (s->n == 0) { s->roots++; VPR_CHECK(s->roots == 1, "two geometries"); }
  VPR_CHECK(s->n < 300, "nested %d deep", s->n);
  s->dims = d;
  push(s, 'g');
  return ev(s);
}
static int v_ring(struct GeoArrowVisitor* v) { ST push(s, 'r'); return ev(s); }
static int v_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  ST
  int nd = s->dims == 1 ? 2 : s->dims == 4 ? 4 : 3;
  VPR_CHECK(s->n > 0, "coordinates outside a geometry");
  VPR_CHECK(c->n_coords >= 1 && c->n_coords <= 64, "a view of %lld coordinates", (long long)c->n_coords);
  VPR_CHECK(c->n_values == nd, "a view of %d values for dimensions %d", c->n_values, s->dims);
  volatile double sum = 0;
  for (int j = 0; j < c->n_values; j++)
    for (int64_t i = 0; i < c->n_coords; i++) sum += c->values[j][i * c->coords_stride];
  s->coords += c->n_coords;
  return ev(s);
}
static int v_ring_end(struct GeoArrowVisitor* v) { ST pop(s, 'r'); return ev(s); }
static int v_geom_end(struct GeoArrowVisitor* v) { ST pop(s, 'g'); return ev(s); }
static int v_feat_end(struct GeoArrowVisitor* v) {
  ST
  VPR_CHECK(s->n == 0 && s->roots == 1, "the feature ends with %d open", s->n);
  s->feat_ends++;
  return ev(s);
}
static int isws(uint8_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

int vp_case(vpr* r) {
  int good = 0;
  struct GeoArrowWKTReader reader;
  if (GeoArrowWKTReaderInit(&reader)) return 0;
  int rounds = (int)vpr_in(r, 1, 3);
  for (int k = 0; k < rounds; k++) {
    vbuf b = {0};
    text(r, &b);
    /* the text starts anywhere inside an exact heap block, without a terminator */
    size_t lead = vpr_u8(r) % 4;
    uint8_t* d = malloc(b.n + lead ? b.n + lead : 1);
    if (b.n + lead == 0) { free(d); d = malloc(0); }
    memset(d, '7', lead);
    if (b.n) memcpy(d + lead, b.p, b.n);
    struct GeoArrowError err;
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    vst s;
    memset(&s, 0, sizeof s);
    s.fail_at = vpr_p(r, 25) ? vpr_in(r, 0, 40) : -1;
    s.code = (int)vpr_in(r, 1, 120);
    v.private_data = &s; v.error = vpr_p(r, 80) ? &err : NULL;
    v.feat_start = &v_feat; v.null_feat = &v_null; v.geom_start = &v_geom; v.ring_start = &v_ring; v.coords = &v_coords;
    v.ring_end = &v_ring_end; v.geom_end = &v_geom_end; v.feat_end = &v_feat_end;
    struct GeoArrowStringView sv = {(char*)d + lead, (int64_t)b.n};
    int rc = GeoArrowWKTReaderVisit(&reader, sv, &v);
    if (s.failed) VPR_CHECK(rc == s.code, "a callback failed with %d but the result is %d", s.code, rc);
    if (rc == 0) {
      good = 1;
      VPR_CHECK(s.n == 0, "%d geometries or rings were not ended", s.n);
      VPR_CHECK(s.feats == 1 && s.feat_ends == 1 && s.roots == 1, "features %d/%d geometries %d", s.feats, s.feat_ends, s.roots);
      /* the whole text: what remains after the last bracket or EMPTY is whitespace, the brackets balance, and there is one separator less... */
      int64_t level = 0;
      size_t last = 0;
      for (size_t i = 0; i < b.n; i++) {
        uint8_t c = d[lead + i];
        if (c == '(') level++;
        if (c == ')') { level--; VPR_CHECK(level >= 0, "unbalanced text accepted"); last = i + 1; }
        if (i + 5 <= b.n && memcmp(d + lead + i, "EMPTY", 5) == 0) { last = i + 5; }
        if (level == 0 && c == ')') for (size_t j = i + 1; j < b.n; j++) VPR_CHECK(isws(d[lead + j]), "text after the geometry was ignored");
      }
      VPR_CHECK(level == 0, "a text that ends inside a bracket is accepted");
      for (size_t i = last; i < b.n; i++) VPR_CHECK(isws(d[lead + i]), "text after the geometry was ignored");
    }
    free(s.kind);
    free(d);
    free(b.p);
  }
  GeoArrowWKTReaderReset(&reader);
  return good;
}
