/* C07: all identifiers around the valid ones, and arbitrary values. */
#include "vpr.h"
#include "geoarrow/geoarrow.h"
static int at(int d, int o) { return o < 2 ? o : o == 2 ? (d == 2 || d == 4 ? 2 : -1) : (d == 3 ? 2 : d == 4 ? 3 : -1); }
static int same(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
int vp_case(vpr* r) {
  static const char* const kName[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
  static const char* const kExt[] = {0, "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
  static const char* const kDim[] = {"unknown", "xy", "xyz", "xym", "xyzm"};
  static const char* const kCoord[] = {"unknown", "separate", "interleaved"};
  static const char* const kEdge[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  static const char* const kCrs[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};
  for (int k = 0; k < 16; k++) {
    uint32_t g = vpr_in(r, 0, 9), d = vpr_in(r, 0, 5), c = vpr_in(r, 0, 3);
    if (g == 8) g = 990;
    if (g == 9) g = vpr_in(r, 0, 2000);
    int m = GeoArrowMakeType(g, d, c);
    if (!g || !d || !c || (g == 990 && c != 1)) VPR_CHECK(m == 0, "MakeType(%u,%u,%u) = %d", g, d, c, m);
    else if (((g >= 1 && g <= 6) || g == 990) && d <= 4 && c <= 2) {
      VPR_CHECK((uint32_t)m == (d - 1) * 1000 + (c - 1) * 10000 + g, "MakeType(%u,%u,%u) = %d", g, d, c, m);
      VPR_CHECK((uint32_t)GeoArrowGeometryTypeFromType(m) == g && (uint32_t)GeoArrowDimensionsFromType(m) == d && (uint32_t)GeoArrowCoordTypeFromType(m) == c, "type %d does not decompose into %u %u %u", m, g, d, c);
      VPR_CHECK(same(GeoArrowExtensionNameFromType(m), g == 990 ? "geoarrow.box" : kExt[g]), "extension name of %d", m);
    }
    uint32_t s = 100000 + vpr_in(r, 0, 6);
    if (s == 100000) s = 0;
    VPR_CHECK(GeoArrowGeometryTypeFromType(s) == 0 && GeoArrowDimensionsFromType(s) == 0 && GeoArrowCoordTypeFromType(s) == 0, "parts of type %u", s);
    VPR_CHECK(same(GeoArrowExtensionNameFromType(s), s == 0 ? 0 : s == 100001 || s == 100002 || s == 100005 ? "geoarrow.wkb" : "geoarrow.wkt"), "extension name of %u", s);
    VPR_CHECK(same(GeoArrowGeometryTypeString(g), g <= 7 ? kName[g] : g == 990 ? "BOX" : "<not valid>"), "name of geometry type %u", g);
    VPR_CHECK(same(GeoArrowDimensionsString(d), d <= 4 ? kDim[d] : "<not valid>"), "name of dimensions %u", d);
    VPR_CHECK(same(GeoArrowCoordTypeString(c), c <= 2 ? kCoord[c] : "<not valid>"), "name of layout %u", c);
    uint32_t e = vpr_in(r, 0, 7);
    VPR_CHECK(same(GeoArrowEdgeTypeString(e), e <= 5 ? kEdge[e] : "<not valid>"), "name of edges %u", e);
    VPR_CHECK(same(GeoArrowCrsTypeString(e), e <= 5 ? kCrs[e] : "<not valid>"), "name of crs type %u", e);
    int a = vpr_in(r, 1, 4), b = vpr_in(r, 1, 4), map[4];
    GeoArrowMapDimensions(a, b, map);
    for (int o = 0; o < 4; o++) if (at(b, o) >= 0) VPR_CHECK(map[at(b, o)] == at(a, o), "ordinate %d from %d to %d", o, a, b);
    VPR_CHECK(_GeoArrowkNumDimensions[b] == 2 + (b == 2 || b == 3) + 2 * (b == 4), "number of dimensions %d", b);
    VPR_CHECK(_GeoArrowkNumOffsets[vpr_in(r, 1, 6)] >= 0, "offsets");
  }
  return 1;
}
