/* C07: type identifiers. Loop free: every value of every argument. */
#include "vp.h"
#include "geoarrow/geoarrow.h"

static _Bool eq(const char* a, const char* b) {
  if (!a || !b) return a == b;
  for (int i = 0; i < 32; i++) {
    if (a[i] != b[i]) return 0;
    if (!a[i]) return 1;
  }
  return 0;
}
static const char* const kName[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
static const char* const kExt[] = {0, "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"};
static const char* const kDim[] = {"unknown", "xy", "xyz", "xym", "xyzm"};
static const char* const kCoord[] = {"unknown", "separate", "interleaved"};
static const char* const kEdge[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static const char* const kCrs[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};

void harness(void) {
  uint32_t t = vp_u32();
  enum GeoArrowType type = (enum GeoArrowType)t;
  /* is it an identifier of a native type, and which parts is it made of */
  uint32_t layout = t >= 10000 ? 2 : 1, r = t >= 10000 ? t - 10000 : t;
  uint32_t dim = r / 1000 + 1, geo = r % 1000;
  _Bool box = layout == 1 && dim <= 4 && geo == 990;
  _Bool native = (t < 20000 && dim <= 4 && geo >= 1 && geo <= 6) || box;
  _Bool serial = t >= 100001 && t <= 100006;
  enum GeoArrowGeometryType g = GeoArrowGeometryTypeFromType(type);
  enum GeoArrowDimensions d = GeoArrowDimensionsFromType(type);
  enum GeoArrowCoordType c = GeoArrowCoordTypeFromType(type);
  const char* ext = GeoArrowExtensionNameFromType(type);
  if (native) {
    VP_ASSERT((uint32_t)g == geo && (uint32_t)d == dim && (uint32_t)c == layout, "an identifier decomposes into its parts");
    VP_ASSERT(GeoArrowMakeType(g, d, c) == type, "composing the parts gives the identifier back");
    VP_ASSERT(eq(ext, box ? "geoarrow.box" : kExt[geo]), "extension name of a native type");
    VP_REACH("native");
  } else if (serial || t == 0) {
    VP_ASSERT(g == GEOARROW_GEOMETRY_TYPE_GEOMETRY && d == GEOARROW_DIMENSIONS_UNKNOWN && c == GEOARROW_COORD_TYPE_UNKNOWN,
              "a serialized type has no fixed parts");
    VP_ASSERT(GeoArrowMakeType(g, d, c) == GEOARROW_TYPE_UNINITIALIZED, "no parts, no type");
    VP_ASSERT(eq(ext, t == 0 ? 0 : t == 100001 || t == 100002 || t == 100005 ? "geoarrow.wkb" : "geoarrow.wkt"), "extension name of a serialized type");
    VP_REACH("serialized");
  }
  VP_ASSERT((uint32_t)g <= 6 || g == GEOARROW_GEOMETRY_TYPE_BOX, "a geometry type is one of the known ones");
  VP_ASSERT((uint32_t)d <= 4 && (uint32_t)c <= 2, "dimensions and layouts are known ones");
  /* composing */
  uint32_t gg = vp_u32(), dd = vp_u32(), cc = vp_u32();
  VP_ASSUME(gg < 32768 && dd < 32768 && cc < 32768); /* larger values are no enumerators and overflow int */
  enum GeoArrowType m = GeoArrowMakeType((enum GeoArrowGeometryType)gg, (enum GeoArrowDimensions)dd, (enum GeoArrowCoordType)cc);
  if (gg == 0 || dd == 0 || cc == 0 || (gg == 990 && cc != 1))
    VP_ASSERT(m == GEOARROW_TYPE_UNINITIALIZED, "an unknown part or an interleaved box composes to no type");
  else if (((gg >= 1 && gg <= 6) || gg == 990) && dd <= 4 && cc <= 2) {
    VP_ASSERT((uint32_t)GeoArrowGeometryTypeFromType(m) == gg && (uint32_t)GeoArrowDimensionsFromType(m) == dd &&
              (uint32_t)GeoArrowCoordTypeFromType(m) == cc, "composing and decomposing are inverse");
    VP_REACH("composed");
  }
  /* names */
  VP_ASSERT(eq(GeoArrowGeometryTypeString((enum GeoArrowGeometryType)gg), gg <= 7 ? kName[gg] : gg == 990 ? "BOX" : "<not valid>"), "names of geometry types");
  VP_ASSERT(eq(GeoArrowDimensionsString((enum GeoArrowDimensions)dd), dd <= 4 ? kDim[dd] : "<not valid>"), "names of dimensions");
  VP_ASSERT(eq(GeoArrowCoordTypeString((enum GeoArrowCoordType)cc), cc <= 2 ? kCoord[cc] : "<not valid>"), "names of layouts");
  VP_ASSERT(eq(GeoArrowEdgeTypeString((enum GeoArrowEdgeType)dd), dd <= 5 ? kEdge[dd] : "<not valid>"), "names of edges");
  VP_ASSERT(eq(GeoArrowCrsTypeString((enum GeoArrowCrsType)cc), cc <= 5 ? kCrs[cc] : "<not valid>"), "names of reference system types");
}

/* has(d, o): which ordinate of dimension set d is x, y, z, m (0..3), or -1 */
static int at(int d, int o) {
  return o < 2 ? o : o == 2 ? (d == 2 || d == 4 ? 2 : -1) : (d == 3 ? 2 : d == 4 ? 3 : -1);
}
void harness_map(void) {
  int s = vp_int(), d = vp_int(), o = vp_int();
  VP_ASSUME(s >= 1 && s <= 4 && d >= 1 && d <= 4 && o >= 0 && o <= 3);
  int map[4];
  GeoArrowMapDimensions((enum GeoArrowDimensions)s, (enum GeoArrowDimensions)d, map);
  int to = at(d, o);
  if (to >= 0) VP_ASSERT(map[to] == at(s, o), "ordinate o of the destination comes from ordinate o of the source, if it has one");
  VP_ASSERT(_GeoArrowkNumDimensions[d] == 2 + (at(d, 2) >= 0) + (at(d, 3) >= 0), "number of ordinates");
  double v;
  memcpy(&v, _GeoArrowkEmptyPointCoords + 8 * o, 8);
  VP_ASSERT(v != v, "the empty coordinate is NaN");
  if (s == 3 && d == 4) VP_REACH("mapped");
}
