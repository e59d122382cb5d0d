/* C16 (VP_C16): texts of all kinds. C17 (VP_C17): random views, buffers of every size, and back. */
#include "vpr.h"
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
static char* T;
static size_t N, CAP;
static void put(const char* s, size_t n) {
  if (N + n > CAP) { CAP = (N + n) * 2 + 64; T = realloc(T, CAP); }
  memcpy(T + N, s, n);
  N += n;
}
static void PUTS(const char* s) { put(s, strlen(s)); }
static void ws(vpr* r) { while (vpr_p(r, 20)) put(&" \t\n\r"[vpr_in(r, 0, 3)], 1); }
/* a JSON string with brackets, commas and escapes inside */
static void str(vpr* r) {
  PUTS("\"");
  int n = vpr_p(r, 5) ? vpr_in(r, 0, 300) : vpr_in(r, 0, 8);
  while (n-- > 0) switch (vpr_in(r, 0, 7)) {
    case 0: PUTS("\\\""); break;
    case 1: PUTS("\\\\"); break;
    case 2: put(&"{}[],:"[vpr_in(r, 0, 5)], 1); break;
    case 3: { char c = (char)vpr_in(r, 128, 255); put(&c, 1); break; }
    default: { char c = (char)vpr_in(r, 'a', 'z'); put(&c, 1); }
  }
  PUTS("\"");
}
static void value(vpr* r, int depth) {
  int k = vpr_in(r, 0, depth > 12 ? 1 : 6), n;
  switch (k) {
    case 0: str(r); break;
    case 1: PUTS("null"); break;
    case 2: case 3:
      PUTS("["); n = vpr_in(r, 0, 2);
      for (int i = 0; i < n; i++) { if (i) PUTS(","); ws(r); value(r, depth + 1); ws(r); }
      PUTS("]"); break;
    case 4: case 5:
      PUTS("{"); n = vpr_in(r, 0, 2);
      for (int i = 0; i < n; i++) { if (i) PUTS(","); ws(r); str(r); ws(r); PUTS(":"); ws(r); value(r, depth + 1); ws(r); }
      PUTS("}"); break;
    default: { static const char* w[] = {"1", "true", "-2.5e3"}; if (depth) PUTS(w[vpr_in(r, 0, 2)]); else PUTS("null"); }
  }
}
static const char* EDGE[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static const char* TYPE[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
static void quoted(const char* s) { PUTS("\""); PUTS(s); PUTS("\""); }
/* a name that is almost one of theirs */
static int near_miss(vpr* r, const char* const* names, char* out) {
  strcpy(out, names[vpr_in(r, 0, 5)]);
  size_t n = strlen(out);
  switch (vpr_in(r, 0, 4)) {
    case 0: out[n - 1] = 0; break;
    case 1: out[n] = 's'; out[n + 1] = 0; break;
    case 2: out[0] ^= 32; break;
    case 3: memmove(out, out + 1, n); break;
    default: out[vpr_in(r, 0, n - 1)]++; break;
  }
  for (int i = 0; i < 6; i++) if (!strcmp(out, names[i])) return 0;
  return strchr(out, '"') == 0 && strchr(out, '\\') == 0;
}
static int check_view(struct GeoArrowMetadataView* m, const char* p, size_t n) {
  VPR_CHECK((int)m->edge_type >= 0 && m->edge_type <= 5, "edge type %d", (int)m->edge_type);
  VPR_CHECK((int)m->crs_type >= 0 && m->crs_type <= 5, "crs type %d", (int)m->crs_type);
  VPR_CHECK(m->crs.size_bytes >= 0, "size of the reference system");
  if (m->crs.size_bytes) VPR_CHECK(m->crs.data >= p && m->crs.data <= p + n && m->crs.size_bytes <= p + n - m->crs.data, "the reference system is outside the text");
  else VPR_CHECK(m->crs_type == 0, "no reference system but a type");
  VPR_CHECK(m->metadata.data == p && m->metadata.size_bytes == (int64_t)n, "the text");
  return 1;
}
static int parse(const char* t, size_t n, struct GeoArrowMetadataView* m, char** copy) {
  char* p = malloc(n);
  memcpy(p, t, n);
  struct GeoArrowStringView s = {p, (int64_t)n};
  struct GeoArrowError e;
  memset(m, 0x5a, sizeof *m);
  int rc = GeoArrowMetadataViewInit(m, s, &e);
  *copy = p;
  if (rc == 0) check_view(m, p, n);
  return rc;
}
#ifdef VP_C16
int vp_case(vpr* r) {
  struct GeoArrowMetadataView m;
  char* p;
  N = 0;
  int kind = vpr_in(r, 0, 19);
  if (kind == 0) { /* any bytes */
    size_t n = vpr_in(r, 0, 40);
    for (size_t i = 0; i < n; i++) { char c = vpr_p(r, 60) ? "{}[]\":,\\n \0"[vpr_in(r, 0, 10)] : (char)vpr_u8(r); put(&c, 1); }
    parse(T, N, &m, &p);
    free(p);
    return 1;
  }
  if (kind == 1 && vpr_p(r, 5)) { /* nesting */
    size_t n = vpr_p(r, 20) ? vpr_in(r, 0, 2000000) : vpr_in(r, 100, 200);
    PUTS("{\"a\":");
    int mixed = vpr_in(r, 0, 2);
    for (size_t i = 0; i < n; i++) {
      if (mixed == 0) PUTS("["); else if (mixed == 1) PUTS("{\"\":"); else if (i % 2) PUTS("[1,"); else PUTS("{");
    }
    size_t inner = vpr_p(r, 50) ? n : vpr_in(r, 0, n);
    for (size_t i = n; i-- > n - inner;) PUTS(mixed == 0 ? "]" : mixed == 1 ? "}" : i % 2 ? "]" : "}");
    PUTS("}");
    int rc = parse(T, N, &m, &p);
    if (n > 0 && n <= 100 && inner == n) VPR_CHECK(rc == 0, "%zu levels refused", n);
    free(p);
    return 1;
  }
  /* an object whose members are known */
  int edge = 0, crs = 0, type = 0, ok = 1, seen_crs = 0, seen_type = 0;
  size_t at = 0, len = 0;
  ws(r);
  PUTS("{");
  int n = vpr_in(r, 0, 4);
  for (int i = 0; i < n; i++) {
    if (i) PUTS(",");
    ws(r);
    int k = vpr_in(r, 0, 5);
    if ((k == 2 || k == 3) && seen_crs) k = 5;
    if (k == 4 && seen_type) k = 5;
    char name[40];
    if (k <= 1) {
      PUTS("\"edges\""); ws(r); PUTS(":"); ws(r);
      int what = vpr_in(r, 0, 19);
      if (what == 0) { value(r, 10); ok = -1; }
      else if (what == 1) { if (near_miss(r, EDGE, name)) { quoted(name); if (ok > 0) ok = 0; } else { quoted("planar"); edge = 0; } }
      else if (what < 4) { PUTS("null"); edge = 0; }
      else { edge = vpr_in(r, 0, 5); quoted(EDGE[edge]); }
    } else if (k <= 3) {
      seen_crs = 1;
      PUTS("\"crs\""); ws(r); PUTS(":"); ws(r);
      size_t from = N;
      int what = vpr_in(r, 0, 9);
      if (what == 0) { PUTS("["); PUTS("]"); if (ok > 0) ok = 0; }
      else if (what <= 2) { PUTS("null"); crs = 0; type = 0; }
      else {
        if (what <= 6) str(r);
        else { PUTS("{"); ws(r); str(r); PUTS(":"); value(r, 1); PUTS("}"); }
        crs = 1; at = from; len = N - from;
        if (type == 0) type = 1;
      }
    } else if (k == 4) {
      seen_type = 1;
      PUTS("\"crs_type\""); ws(r); PUTS(":"); ws(r);
      int what = vpr_in(r, 0, 9);
      if (what == 0) { PUTS(vpr_p(r, 50) ? "null" : "[]"); if (ok > 0) ok = 0; }
      else if (what <= 2) { if (near_miss(r, TYPE, name)) quoted(name); else quoted("unknown"); type = 1; }
      else { int t = vpr_in(r, 0, 5); quoted(TYPE[t]); type = t < 2 ? 1 : t; }
    } else {
      static const char* keys[] = {"edge", "edgess", "Crs", "crs_typ", "crs2", "", "edges\\\"", "type"};
      quoted(keys[vpr_in(r, 0, 7)]);
      ws(r); PUTS(":"); ws(r);
      value(r, 0);
    }
    ws(r);
  }
  PUTS("}");
  ws(r);
  if (kind < 10) {
    int rc = parse(T, N, &m, &p);
    if (ok == 0) VPR_CHECK(rc != 0, "accepted: %.*s", (int)N, T);
    if (ok == 1) {
      VPR_CHECK(rc == 0, "refused: %.*s", (int)N, T);
      if (!crs) type = 0;
      VPR_CHECK((int)m.edge_type == edge, "edge type %d for %d: %.*s", (int)m.edge_type, edge, (int)N, T);
      VPR_CHECK((int)m.crs_type == type, "crs type %d for %d: %.*s", (int)m.crs_type, type, (int)N, T);
      if (crs) VPR_CHECK(m.crs.data == p + at && m.crs.size_bytes == (int64_t)len, "the reference system's text: %.*s", (int)N, T);
      else VPR_CHECK(m.crs.size_bytes == 0, "a reference system from nowhere");
    }
    free(p);
  } else if (kind < 16) { /* the object, cut anywhere */
    size_t cut = vpr_in(r, 0, N);
    if (parse(T, cut, &m, &p) == 0 && cut > 0) {
      size_t last = cut;
      while (last > 0 && strchr(" \t\n\r", T[last - 1])) last--;
      VPR_CHECK(last > 0 && T[last - 1] == '}', "accepted without its end: %.*s", (int)cut, T);
    }
    free(p);
  } else { /* changed */
    for (int i = vpr_in(r, 1, 3); i > 0 && N; i--) T[vpr_in(r, 0, N - 1)] = vpr_p(r, 70) ? "{}[]\":,\\n \0e"[vpr_in(r, 0, 11)] : (char)vpr_u8(r);
    parse(T, N, &m, &p);
    free(p);
  }
  return 1;
}
#else
/* the text of a reference system: anything, or a JSON string or object */
static int vp_case_json;
int vp_case(vpr* r) {
  struct GeoArrowMetadataView v, m;
  memset(&v, 0, sizeof v);
  v.edge_type = vpr_in(r, 0, 5);
  v.crs_type = vpr_in(r, 0, 5);
  N = 0;
  int kind = vpr_in(r, 0, 9);
  if (kind < 5) {
    size_t n = vpr_p(r, 10) ? vpr_in(r, 0, 5000) : vpr_in(r, 0, 20);
    for (size_t i = 0; i < n; i++) { char c = vpr_p(r, 30) ? "\"\\{}\0,"[vpr_in(r, 0, 5)] : (char)vpr_u8(r); put(&c, 1); }
    /* text that begins like JSON is taken to be JSON */
    if (N && (T[0] == '{' || T[0] == '"')) T[0] = 'x';
    vp_case_json = 0;
  } else if (kind < 8) { str(r); vp_case_json = 1; }
  else { PUTS("{"); str(r); PUTS(":"); value(r, 1); PUTS("}"); vp_case_json = 1; }
  size_t n = N;
  char* crs = malloc(n);
  memcpy(crs, T, n);
  v.crs.data = n || vpr_p(r, 50) ? crs : 0;
  v.crs.size_bytes = (int64_t)n;
  /* what the text must be */
  N = 0;
  int keys = 0;
  PUTS("{");
  if (v.edge_type) { PUTS("\"edges\":"); quoted(EDGE[v.edge_type]); keys++; }
  if (v.crs_type > 1) { if (keys++) PUTS(","); PUTS("\"crs_type\":"); quoted(TYPE[v.crs_type]); }
  if (v.crs_type) {
    if (keys++) PUTS(",");
    PUTS("\"crs\":");
    if (vp_case_json) put(crs, n);
    else {
      PUTS("\"");
      for (size_t i = 0; i < n; i++) { if (crs[i] == '"' || crs[i] == '\\') PUTS("\\"); put(crs + i, 1); }
      PUTS("\"");
    }
  }
  PUTS("}");
  int64_t room = vpr_p(r, 40) ? (int64_t)N + vpr_in(r, 0, 3) - 1 : vpr_in(r, 0, (int64_t)N + 40);
  char* out = room || vpr_p(r, 50) ? malloc(room) : 0;
  if (room) memset(out, 0x77, room);
  int64_t got = GeoArrowMetadataSerialize(&v, out, room);
  VPR_CHECK(got == (int64_t)N, "announced %ld bytes for %zu", (long)got, N);
  if (room >= (int64_t)N) VPR_CHECK(memcmp(out, T, N) == 0, "written %.*s for %.*s", (int)N, out, (int)N, T);
  for (int64_t i = room >= (int64_t)N ? (int64_t)N : 0; i < room; i++)
    VPR_CHECK(out[i] == (i == (int64_t)N && room > (int64_t)N ? 0 : 0x77), "byte %ld of %ld changed", (long)i, (long)room);
  free(out);
  /* and back */
  out = malloc(N);
  GeoArrowMetadataSerialize(&v, out, N);
  char* p;
  VPR_CHECK(parse(out, N, &m, &p) == 0, "does not parse back: %.*s", (int)N, out);
  VPR_CHECK(m.edge_type == v.edge_type && m.crs_type == v.crs_type, "types %d %d for %d %d", (int)m.edge_type, (int)m.crs_type, (int)v.edge_type, (int)v.crs_type);
  if (v.crs_type) {
    if (vp_case_json) VPR_CHECK(m.crs.size_bytes == (int64_t)n && memcmp(m.crs.data, crs, n) == 0, "the reference system comes back different");
    /* what is unescaped, into every room */
    char* want = malloc(2 * n + 2);
    size_t w = 0;
    if (m.crs.data[0] == '"') {
      if (!vp_case_json) { memcpy(want, crs, n); w = n; }
      else for (size_t i = 1, esc = 0; i + 1 < n; i++) { if (!esc && crs[i] == '\\') esc = 1; else { esc = 0; want[w++] = crs[i]; } }
    } else { memcpy(want, crs, n); w = n; }
    room = vpr_p(r, 40) ? (int64_t)w + vpr_in(r, 0, 2) - 1 : vpr_in(r, 0, (int64_t)w + 5);
    if (room < 0) room = 0;
    char* u = room ? malloc(room) : 0;
    if (room) memset(u, 0x77, room);
    got = GeoArrowUnescapeCrs(m.crs, u, room);
    VPR_CHECK(got == (int64_t)w, "unescaped length %ld for %zu", (long)got, w);
    for (int64_t i = 0; i < room; i++) VPR_CHECK(u[i] == (i < (int64_t)w ? want[i] : i == (int64_t)w ? 0 : 0x77), "unescaped byte %ld of %ld is %d", (long)i, (long)room, u[i]);
    free(u);
    free(want);
  }
  free(p);
  free(out);
  /* on a schema, next to what else is there */
  struct ArrowSchema s;
  GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKB);
  struct ArrowBuffer b;
  ArrowMetadataBuilderInit(&b, s.metadata);
  ArrowMetadataBuilderAppend(&b, ArrowCharView("other"), ArrowCharView("value"));
  ArrowSchemaSetMetadata(&s, (const char*)b.data);
  ArrowBufferReset(&b);
  for (int twice = 0; twice < 2; twice++) VPR_CHECK(GeoArrowSchemaSetMetadata(&s, &v) == 0, "GeoArrowSchemaSetMetadata");
  struct GeoArrowSchemaView sv;
  VPR_CHECK(GeoArrowSchemaViewInit(&sv, &s, 0) == 0, "the schema is not valid any more");
  VPR_CHECK(sv.extension_metadata.size_bytes == (int64_t)N && memcmp(sv.extension_metadata.data, T, N) == 0, "the metadata of the schema");
  struct ArrowStringView other;
  other.size_bytes = 0;
  ArrowMetadataGetValue(s.metadata, ArrowCharView("other"), &other);
  VPR_CHECK(other.size_bytes == 5 && !memcmp(other.data, "value", 5), "other metadata is lost");
  struct ArrowSchema s2;
  GeoArrowSchemaInitExtension(&s2, GEOARROW_TYPE_POINT);
  VPR_CHECK(GeoArrowSchemaSetMetadataFrom(&s2, &s) == 0 && GeoArrowSchemaViewInit(&sv, &s2, 0) == 0, "GeoArrowSchemaSetMetadataFrom");
  VPR_CHECK(sv.type == GEOARROW_TYPE_POINT && sv.extension_metadata.size_bytes == (int64_t)N && memcmp(sv.extension_metadata.data, T, N) == 0, "the metadata taken from a schema");
  s.release(&s);
  s2.release(&s2);
  free(crs);
  return 1;
}
#endif
