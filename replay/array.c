/* C09, C10, C23: hand-made arrays in blocks of exactly their size; attaching, visiting windows, reading. */
#include "geom.h"
#include "nanoarrow/nanoarrow.h"
/* --- event log --- */
typedef struct { vbuf log; long left; int code, failed; } rec;
static int put(struct GeoArrowVisitor* v, const void* p, size_t n) {
  rec* q = (rec*)v->private_data;
  VPR_CHECK(!q->failed, "an event after one that failed");
  vb_put(&q->log, p, n);
  if (--q->left == 0) { q->failed = 1; return q->code; }
  return 0;
}
static int ev(struct GeoArrowVisitor* v, char c) { return put(v, &c, 1); }
static int r_fs(struct GeoArrowVisitor* v) { return ev(v, 'f'); }
static int r_null(struct GeoArrowVisitor* v) { return ev(v, 'n'); }
static int r_gs(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) { char b[3] = {'g', (char)t, (char)d}; return put(v, b, 3); }
static int r_rs(struct GeoArrowVisitor* v) { return ev(v, 'r'); }
static int r_re(struct GeoArrowVisitor* v) { return ev(v, 'R'); }
static int r_ge(struct GeoArrowVisitor* v) { return ev(v, 'G'); }
static int r_fe(struct GeoArrowVisitor* v) { return ev(v, 'F'); }
static int r_co(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  vbuf b = {0};
  vb_u8(&b, 'c');
  vb_put(&b, &c->n_coords, 8);
  vb_put(&b, &c->n_values, 4);
  for (int64_t i = 0; i < c->n_coords; i++)
    for (int j = 0; j < c->n_values; j++) vb_put(&b, c->values[j] + i * c->coords_stride, 8);
  int rc = put(v, b.p, b.n);
  free(b.p);
  return rc;
}
static void visitor(struct GeoArrowVisitor* v, rec* q, long left, int code, struct GeoArrowError* e) {
  memset(q, 0, sizeof *q);
  q->left = left;
  q->code = code;
  GeoArrowVisitorInitVoid(v);
  v->feat_start = r_fs; v->null_feat = r_null; v->geom_start = r_gs; v->ring_start = r_rs;
  v->coords = r_co; v->ring_end = r_re; v->geom_end = r_ge; v->feat_end = r_fe;
  v->private_data = q;
  v->error = e;
}
static void bits_of(vpr* r, vgeom* g, vbuf* b) { vg_wkb(g, 0, b, 0); }

#if defined(VP_C09) || defined(VP_C10)
/* --- native arrays --- */
typedef struct { struct ArrowArray a; struct ArrowArray* kid[9]; const void* buf[9]; struct ArrowArray** kids; const void** bufs; int kind; } node;
static node N[40];
static int nn;
static node* fresh(int64_t len, int64_t off, int nb, int nk) {
  node* x = &N[nn++];
  memset(x, 0, sizeof *x);
  x->a.length = len;
  x->a.offset = off;
  x->a.n_buffers = nb;
  x->a.n_children = nk;
  return x;
}
/* hand over the buffer and child tables in blocks of exactly their size */
static void seal(void) {
  for (int i = 0; i < nn; i++) {
    N[i].a.buffers = N[i].bufs = (const void**)vpr_dup(N[i].buf, 8 * N[i].a.n_buffers);
    N[i].a.children = N[i].kids = (struct ArrowArray**)vpr_dup(N[i].kid, 8 * N[i].a.n_children);
  }
}
static void wipe(void) {
  for (int i = 0; i < nn; i++) {
    for (int b = 0; b < 9; b++) free((void*)N[i].buf[b]);
    free(N[i].bufs);
    free(N[i].kids);
  }
  nn = 0;
}
static uint8_t* bitmap(vpr* r, int64_t n) {
  uint8_t* b = (uint8_t*)malloc((n + 7) / 8);
  for (int64_t i = 0; i < (n + 7) / 8; i++) b[i] = vpr_u8(r) | vpr_u8(r);
  return b;
}
static int64_t small(vpr* r) { return vpr_p(r, 50) ? 0 : vpr_in(r, 0, vpr_p(r, 90) ? 4 : 20); }
static double* doubles(vpr* r, int64_t n) {
  double* d = (double*)malloc(n * 8);
  for (int64_t i = 0; i < n; i++) d[i] = vpr_double(r);
  return d;
}
static node* coords(vpr* r, int nv, int inter, int64_t len, int64_t off) {
  node* x = fresh(len, off, 1, inter ? 1 : nv);
  for (int j = 0; j < (inter ? 1 : nv); j++) {
    int64_t o = small(r), n = (len + off) * (inter ? nv : 1);
    node* y = fresh(n, o, 2, 0);
    y->buf[1] = doubles(r, n + o);
    x->kid[j] = &y->a;
  }
  return x;
}
static node* list(vpr* r, int levels, int nv, int inter, int64_t len) {
  int64_t off = small(r);
  if (!levels) return coords(r, nv, inter, len, off);
  node* x = fresh(len, off, 2, 1);
  int32_t at = vpr_in(r, 0, 3);
  if (len == 0 && vpr_p(r, 50)) { /* an empty array need not have offsets: no buffer, or one without bytes */
    at = 0;
    if (vpr_p(r, 50)) x->buf[1] = malloc(1);
  } else {
    int32_t* o = (int32_t*)malloc(4 * (len + off + 1));
    x->buf[1] = o;
    for (int64_t i = 0; i <= len + off; i++) { o[i] = at; if (i < len + off) at += vpr_p(r, 90) ? vpr_in(r, 0, 3) : vpr_in(r, 0, 9); }
  }
  x->kid[0] = &list(r, levels - 1, nv, inter, at + vpr_in(r, 0, 2))->a;
  return x;
}
static int levels_of(int kind) { return kind == 990 || kind == 1 ? 0 : kind == 2 || kind == 4 ? 1 : kind == 6 ? 3 : 2; }
/* the double of ordinate j at coordinate e of the array of coordinates */
static const double* at(const struct ArrowArray* a, int nv, int inter, int64_t e, int j) {
  e += a->offset;
  const struct ArrowArray* c = a->children[inter ? 0 : j];
  return (const double*)c->buffers[1] + c->offset + (inter ? e * nv + j : e);
}
/* the expected events; ends of each event in cut */
static size_t cut[100000];
static int ncut;
static void e1(vbuf* b, char c) { vb_u8(b, c); cut[ncut++] = b->n; }
static void e3(vbuf* b, int t, int d) { vb_u8(b, 'g'); vb_u8(b, t); vb_u8(b, d); cut[ncut++] = b->n; }
static void ec(vbuf* b, const struct ArrowArray* a, int nv, int inter, int64_t e, int64_t n) {
  vb_u8(b, 'c');
  vb_put(b, &n, 8);
  vb_put(b, &nv, 4);
  for (int64_t i = 0; i < n; i++)
    for (int j = 0; j < nv; j++) vb_put(b, at(a, nv, inter, e + i, j), 8);
  cut[ncut++] = b->n;
}
static void expect(vbuf* b, const struct ArrowArray* a, int kind, int nv, int dims, int inter, int64_t i) {
  const struct ArrowArray *k1 = levels_of(kind) ? a->children[0] : NULL, *k2 = levels_of(kind) > 1 ? k1->children[0] : NULL, *k3 = levels_of(kind) > 2 ? k2->children[0] : NULL;
#define O(x, i, d) ((const int32_t*)(x)->buffers[1])[(x)->offset + (i) + (d)]
  e1(b, 'f');
  int64_t raw = a->offset + i;
  if (a->buffers[0] && !(((const uint8_t*)a->buffers[0])[raw / 8] >> (raw % 8) & 1)) e1(b, 'n');
  else if (kind == 990) {
    double q[4];
    for (int j = 0; j < 4; j++) memcpy(q + j, at(a, 4, 0, i, j), 8);
    e3(b, 3, dims);
    if (!(q[0] > q[2] || q[1] > q[3])) {
      static const int ix[] = {0, 2, 2, 0, 0}, iy[] = {1, 1, 3, 3, 1};
      int64_t n = 5;
      e1(b, 'r');
      vb_u8(b, 'c');
      vb_put(b, &n, 8);
      int two = 2;
      vb_put(b, &two, 4);
      for (int w = 0; w < 5; w++) { vb_put(b, q + ix[w], 8); vb_put(b, q + iy[w], 8); }
      cut[ncut++] = b->n;
      e1(b, 'R');
    }
    e1(b, 'G');
  } else {
    e3(b, kind, dims);
    if (kind == 1) ec(b, a, nv, inter, i, 1);
    else if (kind == 2) ec(b, k1, nv, inter, O(a, i, 0), O(a, i, 1) - O(a, i, 0));
    else for (int64_t j = O(a, i, 0); j < O(a, i, 1); j++) {
      if (kind == 4) { e3(b, 1, dims); ec(b, k1, nv, inter, j, 1); e1(b, 'G'); }
      else if (kind == 5 || kind == 3) {
        if (kind == 5) e3(b, 2, dims); else e1(b, 'r');
        ec(b, k2, nv, inter, O(k1, j, 0), O(k1, j, 1) - O(k1, j, 0));
        e1(b, kind == 5 ? 'G' : 'R');
      } else {
        e3(b, 3, dims);
        for (int64_t k = O(k1, j, 0); k < O(k1, j, 1); k++) {
          e1(b, 'r');
          ec(b, k3, nv, inter, O(k2, k, 0), O(k2, k, 1) - O(k2, k, 0));
          e1(b, 'R');
        }
        e1(b, 'G');
      }
    }
    e1(b, 'G');
  }
  e1(b, 'F');
}
int vp_case(vpr* r) {
  static const int kinds[] = {1, 2, 3, 4, 5, 6, 990};
  int kind = kinds[vpr_in(r, 0, 6)], dims = vpr_in(r, 1, 4), inter = kind != 990 && vpr_p(r, 50), done = 0;
  int nv = vg_nd(dims) * (kind == 990 ? 2 : 1);
#ifdef VP_C10
  if (vpr_p(r, 15)) kind = 0;
#else
  if (kind == 990 && vpr_p(r, 90)) dims = 1, nv = 4;
#endif
  enum GeoArrowType type = kind ? GeoArrowMakeType((enum GeoArrowGeometryType)kind, (enum GeoArrowDimensions)dims, inter ? GEOARROW_COORD_TYPE_INTERLEAVED : GEOARROW_COORD_TYPE_SEPARATE)
                                : vpr_p(r, 50) ? GEOARROW_TYPE_WKB : GEOARROW_TYPE_WKT;
  nn = 0;
  node* top;
  if (kind) top = list(r, levels_of(kind), nv, inter, vpr_p(r, 80) ? vpr_in(r, 0, 6) : vpr_in(r, 0, 40));
  else {
    int64_t len = small(r), off = small(r);
    top = fresh(len, off, 3, 0);
    if (len + off) top->buf[1] = calloc(len + off + 1, 4);
  }
  if (vpr_p(r, 50)) top->buf[0] = bitmap(r, top->a.length + top->a.offset);
  struct GeoArrowArrayView av;
  struct GeoArrowError err;
  err.message[0] = 0;
  VPR_CHECK(GeoArrowArrayViewInitFromType(&av, type) == 0, "view of %d", (int)type);
#ifdef VP_C10
  /* the wrong number of buffers or children somewhere: in tables of exactly that size */
  int bad = 0;
  int hit = vpr_p(r, 60) ? vpr_in(r, 0, nn - 1) : -1;
  if (hit >= 0) {
    node* x = N + hit;
    int leaf = x->a.n_buffers == 2 && !x->a.n_children, sep = x->a.n_buffers == 1;
    int nb = vpr_in(r, 0, 5), nk = vpr_p(r, 50) ? (int)x->a.n_children : (int)vpr_in(r, 0, 9);
    /* a struct and a fixed-size list have one buffer; the library asks only for it at the top, where it reads validity */
    if (sep) { if (hit == 0) bad = nb < 1; }
    else if (nb != x->a.n_buffers) bad = 1;
    if (kind && !leaf && nk != x->a.n_children) bad = 1;
    for (int b = 0; b < 9; b++) if (b >= nb) { free((void*)x->buf[b]); x->buf[b] = NULL; }
    x->a.n_buffers = nb;
    node* y = fresh(3, 0, 2, 0);
    y->buf[1] = doubles(r, 60);
    for (int64_t c = x->a.n_children; c < nk; c++) x->kid[c] = &y->a;
    x->a.n_children = nk;
  }
  seal();
  int rc = GeoArrowArrayViewSetArray(&av, &top->a, &err);
  VPR_CHECK((rc != 0) == bad, "kind %d, %d ordinates, interleaved %d: layout %s, code %d (%s)", kind, nv, inter, bad ? "wrong" : "right", rc, err.message);
  if (rc == 0) {
    VPR_CHECK(av.length[0] == top->a.length && av.offset[0] == top->a.offset && av.validity_bitmap == (const uint8_t*)top->a.buffers[0], "length, offset and validity of the array");
    if (kind) {
      const struct ArrowArray* a = &top->a;
      int64_t n = a->length;
      for (int l = 0; l < levels_of(kind); l++) {
        VPR_CHECK(av.length[l] == a->length && av.offset[l] == a->offset, "length and offset of level %d", l);
        n = 0;
        if (a->length) {
          VPR_CHECK(av.offsets[l] == (const int32_t*)a->buffers[1], "offsets of level %d", l);
          VPR_CHECK(av.first_offset[l] == O(a, 0, 0) && av.last_offset[l] == O(a, a->length, 0), "first and last offset of level %d", l);
          n = (int64_t)O(a, a->length, 0) - O(a, 0, 0);
        }
        a = a->children[0];
      }
      VPR_CHECK(av.coords.n_coords == n && av.coords.n_values == nv && av.coords.coords_stride == (inter ? nv : 1), "%ld coordinates, not %ld", (long)av.coords.n_coords, (long)n);
      for (int j = 0; j < nv; j++) {
        const struct ArrowArray* c = a->children[inter ? 0 : j];
        VPR_CHECK(av.coords.values[j] == (const double*)c->buffers[1] + c->offset + (inter ? j : 0), "ordinate %d", j);
      }
    } else VPR_CHECK(av.offsets[0] == (const int32_t*)top->a.buffers[1] && av.data == (const uint8_t*)top->a.buffers[2], "offsets and data");
  }
  done = 1;
#else
  seal();
  VPR_CHECK(GeoArrowArrayViewSetArray(&av, &top->a, &err) == 0, "not attached: %s", err.message);
  int64_t off = vpr_in(r, 0, top->a.length), len = vpr_in(r, 0, top->a.length - off);
  if (vpr_p(r, 30)) off = 0, len = top->a.length;
  vbuf want = {0};
  ncut = 0;
  for (int64_t i = 0; i < len; i++) {
    if (ncut > 90000) break;
    expect(&want, &top->a, kind, nv, dims, inter, off + i);
  }
  if (ncut <= 90000) {
    struct GeoArrowVisitor v;
    rec q;
    long left = vpr_p(r, 40) && ncut ? 1 + vpr_in(r, 0, ncut - 1) : 0;
    visitor(&v, &q, left, 77, &err);
    int rc = GeoArrowArrayViewVisitNative(&av, off, len, &v);
    if (kind == 990 && dims != 1) VPR_CHECK(rc == ENOTSUP && !q.log.n, "boxes other than XY are refused");
    else {
      size_t n = left ? cut[left - 1] : want.n;
      VPR_CHECK(rc == (left ? 77 : 0), "code %d", rc);
      VPR_CHECK(q.log.n == n && (!n || memcmp(q.log.p, want.p, n) == 0), "kind %d, window %ld+%ld of %ld: not the events of the window", kind, (long)off, (long)len, (long)top->a.length);
      done = len > 0;
    }
    free(q.log.p);
  }
  free(want.p);
#endif
  wipe();
  return done;
}
#else
/* --- readers of serialized arrays --- */
static void text_of(vpr* r, vgeom* g, vbuf* b) {
  struct GeoArrowWKTWriter w;
  struct GeoArrowVisitor v;
  struct ArrowArray a;
  GeoArrowWKTWriterInit(&w);
  GeoArrowWKTWriterInitVisitor(&w, &v);
  int k;
  v.feat_start(&v);
  vg_visit(r, &v, g, 0, 0, &k);
  v.feat_end(&v);
  if (GeoArrowWKTWriterFinish(&w, &a, NULL) == 0) {
    const int32_t* o = (const int32_t*)a.buffers[1];
    vb_put(b, (const char*)a.buffers[2] + o[0], o[1] - o[0]);
    a.release(&a);
  }
  GeoArrowWKTWriterReset(&w);
}
int vp_case(vpr* r) {
  static const enum GeoArrowType types[] = {GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKT_VIEW};
  static const enum ArrowType stores[] = {NANOARROW_TYPE_BINARY, NANOARROW_TYPE_LARGE_BINARY, NANOARROW_TYPE_BINARY_VIEW, NANOARROW_TYPE_STRING, NANOARROW_TYPE_LARGE_STRING, NANOARROW_TYPE_STRING_VIEW};
  int which = vpr_in(r, 0, 5), wkt = which > 2, n = vpr_p(r, 90) ? vpr_in(r, 0, 6) : vpr_in(r, 0, 30), nulls = vpr_p(r, 50);
  vbuf item[32];
  int null[32];
  struct ArrowArray a;
  struct GeoArrowError err;
  err.message[0] = 0;
  ArrowArrayInitFromType(&a, stores[which]);
  ArrowArrayStartAppending(&a);
  memset(item, 0, sizeof item);
  for (int i = 0; i < n; i++) {
    null[i] = nulls && vpr_p(r, 30);
    if (null[i]) { ArrowArrayAppendNull(&a, 1); continue; }
    vgeom g;
    vg_gen(r, &g, 0);
    if (wkt) text_of(r, &g, item + i); else bits_of(r, &g, item + i);
    vg_free(&g);
    if (vpr_p(r, 5) && item[i].n) item[i].p[vpr_in(r, 0, item[i].n - 1)] = vpr_u8(r);
    if (vpr_p(r, 5)) item[i].n = vpr_in(r, 0, item[i].n);
    struct ArrowBufferView v;
    v.data.data = item[i].p;
    v.size_bytes = (int64_t)item[i].n;
    VPR_CHECK(ArrowArrayAppendBytes(&a, v) == 0, "append");
  }
  VPR_CHECK(ArrowArrayFinishBuildingDefault(&a, NULL) == 0, "building");
  int shift = vpr_p(r, 50) ? vpr_in(r, 0, n) : 0;
  a.offset = shift;
  a.length = n - shift;
  a.null_count = a.buffers[0] ? -1 : 0;
  struct GeoArrowArrayReader reader;
  VPR_CHECK(GeoArrowArrayReaderInitFromType(&reader, types[which]) == 0, "reader");
  VPR_CHECK(GeoArrowArrayReaderSetArray(&reader, &a, &err) == 0, "attach: %s", err.message);
  const struct GeoArrowArrayView* view = NULL;
  int plain = which == 0 || which == 3;
  VPR_CHECK(GeoArrowArrayReaderArrayView(&reader, &view) == (plain ? 0 : ENOTSUP) && (plain ? view != NULL : view == NULL), "array view");
  int64_t off = vpr_in(r, 0, a.length), len = vpr_in(r, 0, a.length - off);
  if (vpr_p(r, 30)) off = 0, len = a.length;
  /* expected: each element on its own */
  struct GeoArrowVisitor v;
  rec want, got;
  long left = vpr_p(r, 40) ? 1 + vpr_in(r, 0, vpr_p(r, 50) ? 15 : 200) : 0;
  struct GeoArrowWKBReader wkb;
  struct GeoArrowWKTReader wt;
  GeoArrowWKBReaderInit(&wkb);
  GeoArrowWKTReaderInit(&wt);
  visitor(&v, &want, left, 77, &err);
  int rc = 0;
  for (int64_t i = shift + off; i < shift + off + len && !rc; i++) {
    if (null[i]) {
      rc = v.feat_start(&v);
      if (!rc) rc = v.null_feat(&v);
      if (!rc) rc = v.feat_end(&v);
    } else if (wkt) {
      struct GeoArrowStringView s = {(const char*)item[i].p, (int64_t)item[i].n};
      rc = GeoArrowWKTReaderVisit(&wt, s, &v);
    } else {
      struct GeoArrowBufferView s = {item[i].p, (int64_t)item[i].n};
      rc = GeoArrowWKBReaderVisit(&wkb, s, &v);
    }
  }
  GeoArrowWKBReaderReset(&wkb);
  GeoArrowWKTReaderReset(&wt);
  visitor(&v, &got, left, 77, &err);
  int rc2 = GeoArrowArrayReaderVisit(&reader, off, len, &v);
  VPR_CHECK(rc == rc2, "code %d, not %d", rc2, rc);
  VPR_CHECK(got.log.n == want.log.n && (!got.log.n || memcmp(got.log.p, want.log.p, got.log.n) == 0), "storage %d, window %ld+%ld of %ld at %d: not the events of its elements", which, (long)off, (long)len, (long)a.length, shift);
  free(got.log.p);
  free(want.log.p);
  GeoArrowArrayReaderReset(&reader);
  a.release(&a);
  for (int i = 0; i < n; i++) free(item[i].p);
  return len > 0;
}
#endif
