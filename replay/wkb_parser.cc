/* C22: the header-only WKB parser against an independent reading of the same bytes. */
#include "vpr.h"
#include <string>
#include <vector>
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
using namespace geoarrow::wkb_util;
typedef std::vector<uint8_t> bytes;
static void u32(bytes& b, uint32_t v, int le) { for (int i = 0; i < 4; i++) b.push_back((uint8_t)(v >> 8 * (le ? i : 3 - i))); }
static void coords(vpr* r, bytes& b, uint32_t n, int k, int le) {
  for (uint32_t i = 0; i < n * k; i++) {
    double d = vpr_double(r);
    uint64_t u;
    memcpy(&u, &d, 8);
    for (int j = 0; j < 8; j++) b.push_back((uint8_t)(u >> 8 * (le ? j : 7 - j)));
  }
}
static void geometry(vpr* r, bytes& b, int depth) {
  int le = (int)vpr_in(r, 0, 1), t = (int)vpr_in(r, 1, depth > 0 ? 7 : 3), dim = (int)vpr_in(r, 0, 3), iso = vpr_p(r, 50), srid = vpr_p(r, 15);
  uint32_t w = (uint32_t)t;
  if (iso) w += 1000 * dim;
  else w |= (dim & 1 ? 0x80000000u : 0) | (dim & 2 ? 0x40000000u : 0);
  if (srid) w |= 0x20000000u;
  if (vpr_p(r, 3)) w = vpr_p(r, 50) ? (uint32_t)(vpr_in(r, 0, 6) * 1000 + vpr_in(r, 0, 9)) | (w & 0xE0000000u) : vpr_u32(r);
  b.push_back((uint8_t)(vpr_p(r, 1) ? vpr_u8(r) : le));
  u32(b, w, le);
  if (srid) u32(b, vpr_u32(r), le);
  int k = dim == 3 ? 4 : dim ? 3 : 2;
  uint32_t n = (uint32_t)vpr_in(r, 0, 3);
  if (t == 1) { coords(r, b, 1, k, le); return; }
  u32(b, vpr_p(r, 2) ? vpr_u32(r) >> vpr_in(r, 0, 31) : n, le);
  for (uint32_t i = 0; i < n; i++) {
    if (t == 2) coords(r, b, 1, k, le);
    else if (t == 3) { uint32_t m = (uint32_t)vpr_in(r, 0, 4); u32(b, vpr_p(r, 1) ? vpr_u32(r) >> vpr_in(r, 0, 31) : m, le); coords(r, b, m, k, le); }
    else geometry(r, b, depth - 1);
  }
}
/* --- what they say --- */
enum { FEW = 1, ENDIAN, TYPE, DEEP };
struct reader {
  const uint8_t* p;
  size_t n, at;
  uint32_t get(int le) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)p[at + i] << 8 * (le ? i : 3 - i); at += 4; return v; }
  bool room(size_t k) { return n - at >= k; }
};
static double at(const WKBSequence& s, uint32_t i, uint32_t j) {
  const uint8_t* q = s.data + ((size_t)i * s.stride + j) * 8;
  uint64_t u = 0;
  for (int k = 0; k < 8; k++) u |= (uint64_t)q[k] << 8 * (s.endianness ? k : 7 - k);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static bool same(double a, double b) { return (a != a && b != b) || !memcmp(&a, &b, 8); }
static int seq(reader& R, int d, int le, uint32_t count, const WKBGeometry* g, uint32_t k, bool check) {
  uint32_t st = d == 0 ? 2 : d == 3 ? 4 : 3;
  if ((R.n - R.at) / (8 * st) < count) return FEW;
  if (check) {
    VPR_CHECK(k < g->NumSequences(), "sequence %u is missing", k);
    const WKBSequence& s = g->Sequence(k);
    VPR_CHECK(s.data == R.p + R.at && s.length == count && s.size() == count && s.stride == st && s.dimensions == d + 1 && s.endianness == le, "sequence %u at byte %zu", k, R.at);
    uint32_t i = 0;
    s.VisitVertices<geoarrow::array_util::XYZM<double>>([&](geoarrow::array_util::XYZM<double> c) {
      VPR_CHECK(same(c.x(), at(s, i, 0)) && same(c.y(), at(s, i, 1)), "coordinate %u of a sequence of dimensions %d", i, d + 1);
      VPR_CHECK(same(c.z(), d & 1 ? at(s, i, 2) : NAN) && same(c.m(), d & 2 ? at(s, i, d == 3 ? 3 : 2) : NAN), "z and m of coordinate %u", i);
      i++;
    });
    VPR_CHECK(i == count, "%u of %u vertices", i, count);
    i = 0;
    s.VisitEdges<geoarrow::array_util::XY<double>>([&](geoarrow::array_util::XY<double> a, geoarrow::array_util::XY<double> b) {
      VPR_CHECK(same(a.x(), at(s, i, 0)) && same(a.y(), at(s, i, 1)) && same(b.x(), at(s, i + 1, 0)) && same(b.y(), at(s, i + 1, 1)), "edge %u", i);
      i++;
    });
    VPR_CHECK(i == (count ? count - 1 : 0), "%u edges of %u vertices", i, count);
  }
  R.at += (size_t)count * st * 8;
  return 0;
}
static int read(reader& R, const WKBGeometry* g, bool check, int level) {
  if (!R.room(5)) return FEW;
  int le = R.p[R.at++];
  if (le > 1) return ENDIAN;
  uint32_t w = R.get(le), srid = 0xFFFFFFFF;
  if (w & 0x20000000u) { if (!R.room(4)) return FEW; srid = R.get(le); }
  uint32_t code = w & 0xFFFFFF, t = code % 1000, iso = code / 1000;
  if (iso > 3 || t < 1 || t > 7) return TYPE;
  int d = ((w >> 31) | (iso & 1)) | (((w >> 30 & 1) | (iso >> 1)) << 1);
  if (check) VPR_CHECK(g->geometry_type == (int)t && g->dimensions == d + 1 && g->srid == srid, "a geometry of type %u, dimensions %d, SRID %u", t, d + 1, srid);
  uint32_t ns = 0, ng = 0;
  int rc;
  if (t == 1) { if ((rc = seq(R, d, le, 1, g, 0, check))) return rc; ns = 1; }
  else {
    if (!R.room(4)) return FEW;
    uint32_t n = R.get(le);
    if (t == 2) { if ((rc = seq(R, d, le, n, g, 0, check))) return rc; ns = 1; }
    else if (t == 3) {
      for (uint32_t i = 0; i < n; i++) {
        if (!R.room(4)) return FEW;
        uint32_t m = R.get(le);
        if ((rc = seq(R, d, le, m, g, i, check))) return rc;
      }
      ns = n;
    } else {
      if (level >= 255 && n) return DEEP;
      for (uint32_t i = 0; i < n; i++) {
        if (check) VPR_CHECK(i < g->NumGeometries(), "child %u is missing", i);
        if ((rc = read(R, check ? &g->Geometry(i) : g, check, level + 1))) return rc;
      }
      ng = n;
    }
  }
  if (check) VPR_CHECK(g->NumSequences() == ns && g->NumGeometries() == ng, "%u sequences and %u children instead of %u and %u", g->NumSequences(), g->NumGeometries(), ns, ng);
  return 0;
}
static int attempt(WKBParser& P, WKBGeometry& G, const bytes& b, bool view) {
  uint8_t* p = (uint8_t*)malloc(b.size() ? b.size() : 1);
  if (b.size()) memcpy(p, b.data(), b.size());
  const uint8_t* end = nullptr;
  WKBParser::Status st;
  if (view) { struct GeoArrowBufferView v = {p, (int64_t)b.size()}; st = P.Parse(v, &G, &end); }
  else st = P.Parse(p, b.size(), &G, &end);
  reader R = {p, b.size(), 0};
  int want = read(R, &G, false, 0);
  size_t used = R.at;
  if (want) VPR_CHECK(st != WKBParser::OK && st != WKBParser::TOO_MANY_BYTES && (st == WKBParser::TOO_FEW_BYTES) == (want == FEW) && (st == WKBParser::INVALID_ENDIAN) == (want == ENDIAN) && (st == WKBParser::INVALID_GEOMETRY_TYPE) == (want == TYPE), "status %s of bytes with fault %d", P.ErrorToString(st).c_str(), want);
  else {
    VPR_CHECK(st == (used < b.size() ? WKBParser::TOO_MANY_BYTES : WKBParser::OK), "status %s of a geometry of %zu bytes in %zu", P.ErrorToString(st).c_str(), used, b.size());
    VPR_CHECK(end == p + used, "its end");
    R.at = 0;
    read(R, &G, true, 0);
  }
  free(p);
  return want == 0;
}
int vp_case(vpr* r) {
  bytes b;
  WKBParser P;
  WKBGeometry G;
  int good = 0, rounds = (int)vpr_in(r, 1, 3);
  for (int k = 0; k < rounds; k++) { /* the same parser and geometry again */
    b.clear();
    int what = (int)vpr_in(r, 0, 999);
    if (what < 4) { /* deep */
      static const int D[] = {3, 254, 255, 256, 257, 1000, 60000, 150000};
      int n = D[vpr_in(r, 0, what ? 5 : 7)], le = (int)vpr_in(r, 0, 1), t = (int)vpr_in(r, 4, 7);
      for (int i = 0; i < n; i++) { b.push_back((uint8_t)le); u32(b, (uint32_t)t, le); u32(b, 1, le); }
      geometry(r, b, 0);
    } else if (what < 40) {
      for (int n = (int)vpr_in(r, 0, 40); n > 0; n--) b.push_back(vpr_p(r, 70) ? (uint8_t)vpr_in(r, 0, 7) : vpr_u8(r));
    } else geometry(r, b, 3);
    if (vpr_p(r, 25)) switch (vpr_in(r, 0, 2)) {
      case 0: b.resize(b.size() ? vpr_in(r, 0, (int64_t)b.size() - 1) : 0); break;
      case 1: b.push_back(vpr_u8(r)); break;
      default: if (b.size()) b[vpr_in(r, 0, (int64_t)b.size() - 1)] ^= (uint8_t)(1 << vpr_in(r, 0, 7));
    }
    good += attempt(P, G, b, vpr_p(r, 40));
  }
  if (vpr_p(r, 2)) { /* a size past 2^32 */
    uint8_t p[21] = {1, 1};
    struct GeoArrowBufferView v = {p, (int64_t)21 + ((int64_t)1 << 32)};
    VPR_CHECK(P.Parse(v, &G) == WKBParser::TOO_MANY_BYTES, "a point in bytes that go on for 2^32 more");
  }
  return good > 0;
}
