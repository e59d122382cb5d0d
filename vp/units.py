"""All proof units."""
from run import Unit

U = {}


def unit(name, harness, fns, **kw):
    note = kw.pop("note", "")
    u = Unit(name, harness, fns, **kw)
    u.note = note
    U[name] = u


# --- WKB reader ---
wkb_b = dict(unwind=6, sources=["wkb_reader.c", "geometry.c", "nanoarrow.c", "util.c"], defines=["VP_N=31"])
unit("wkb-coords", "wkb_read.c", ["WKBReaderReadNodeCoordinates"], entry="harness_coords", unwind=6)
_node = {"nloops": 2, "loops": {0: ("RINGS", "$0, $i"), 1: ("PARTS", "$0, $i")},
         "calls": {"WKBReaderReadNodeGeometry": "vp_read_node",
                   "GeoArrowGeometryAppendNodeInline": "vp_append_node",
                   "WKBReaderReadNodeCoordinates": "vp_read_coords"}}
unit("wkb-node", "wkb_read.c",
     ["WKBReaderReadNodeGeometry", "WKBReaderReadEndian", "WKBReaderReadUInt32"],
     annot={"wkb_reader.c": {"WKBReaderReadNodeGeometry": _node}}, unwind=6,
     bounded=wkb_b, bound_text="blobs of at most 31 bytes, loops unwound 6 times")
unit("wkb-top", "wkb_read.c", ["GeoArrowWKBReaderRead", "GeoArrowGeometryResizeNodesInline"], entry="harness_top", unwind=6,
     annot={"wkb_reader.c": {"GeoArrowWKBReaderRead": {"calls": {
         "WKBReaderReadNodeGeometry": "vp_top_read", "GeoArrowGeometryAppendNodeInline": "vp_append_node"}}}})

# --- types, errors ---
unit("types", "types.c", ["GeoArrowGeometryTypeFromType", "GeoArrowDimensionsFromType", "GeoArrowCoordTypeFromType",
     "GeoArrowMakeType", "GeoArrowExtensionNameFromType", "GeoArrowGeometryTypeString", "GeoArrowDimensionsString",
     "GeoArrowCoordTypeString", "GeoArrowEdgeTypeString", "GeoArrowCrsTypeString"], unwind=34)
unit("types-map", "types.c", ["GeoArrowMapDimensions"], entry="harness_map", unwind=10)
unit("errset", "errset.c", ["GeoArrowErrorSet"], unwind=10)

# --- coordinates ---
_seq = {"geoarrow_type_inline.h": {"GeoArrowGeometryNodeWriteSequence": {"nloops": 3, "loops": {
    0: ("SEQ", "$1, src, $i"), 2: ("SWAP", "dst_swap, $1")}}}}
SEQ = []
for _k in (1, 2, 3, 4):
    SEQ.append("seq-%d" % _k)
    unit(SEQ[-1], "coords.c", ["GeoArrowGeometryNodeWriteSequence"], entry="harness_seq%d" % _k, annot=_seq, unwind=10, timeout=600)
_cv = {"geoarrow_type_inline.h": {"GeoArrowCoordViewCopy": {"nloops": 5, "loops": {
    0: ("XY", "$i"), 1: ("C2N", "$i"), 2: ("C2", "$i"), 3: ("C3N", "$i"), 4: ("C3", "$i")}}}}
_D = (("xy", 1, 2), ("xyz", 2, 3), ("xym", 3, 3), ("xyzm", 4, 4))
COPY = []
for _s in _D:
    for _d in _D:
        for _l in ("s", "i"):
            COPY.append("copy-%s-%s-%s" % (_s[0], _d[0], _l))
            unit(COPY[-1], "coordview.c", ["GeoArrowCoordViewCopy", "GeoArrowMapDimensions"], annot=_cv, unwind=12,
                 defines=["VP_CASE=copy1(%d,%d,%d)" % (_d[1], 1 if _l == "s" else _d[2], _s[1])])
unit("copy-value", "coordview.c", ["GEOARROW_COORD_VIEW_VALUE"], entry="harness_value", defines=["VP_VALUE"], unwind=6)
_cg = {"geoarrow_type_inline.h": {"GeoArrowGeometryViewCopyCoordsGeneric": {"nloops": 4, "loops": {
    0: ("NODE", "node, out_cursor"), 2: ("ORDS", "node, i, $i, src_mapped, out_cursor"),
    3: ("ORD", "node, i, $i, src_mapped, out_cursor")}}}}
GEN = []
for _s in _D:
    for _d in _D:
        GEN.append("gen-%s-%s" % (_s[0], _d[0]))
        unit(GEN[-1], "coordgen.c", ["GeoArrowGeometryViewCopyCoordsGeneric", "GeoArrowMapDimensions"], annot=_cg, unwind=12,
             defines=["VP_SRC=%d" % _s[1], "VP_DIMS=%d" % _d[1]])
unit("num-coords", "coordgen.c", ["GeoArrowGeometryViewNumCoords"], entry="harness_count", unwind=6,
     annot={"geoarrow_type_inline.h": {"GeoArrowGeometryViewNumCoords": {"nloops": 1, "loops": {0: ("CNT", "node, count")}}}})

# --- WKB writer ---
WKBV = []
_p8 = {"ArrowBufferAppendUInt8": "vp_put8"}
_p32 = {"ArrowBufferAppendUInt32": "vp_put32"}
_p = {"ArrowBufferAppend": "vp_put"}
_PUT = {"geom_start": dict(_p8, **_p32), "ring_start": _p32, "ring_end": {}, "geom_end": _p}
for _n in ("geom_start", "ring_start", "ring_end", "geom_end"):
    WKBV.append("wkbw-" + _n.replace("_", "-"))
    unit(WKBV[-1], "wkb_write.c", [_n + "_wkb", "WKBWriterCheckLevel"], entry="harness_" + _n if _n.endswith("start") else "harness_ends", unwind=34,
         defines=["VP_RING=%d" % (_n == "ring_end")],
         annot={"wkb_writer.c": {_n + "_wkb": {"calls": _PUT[_n]}}} if _PUT[_n] else None)
_cw = {"wkb_writer.c": {"coords_wkb": {"nloops": 2, "loops": {0: ("CW", "(&private->values), $i")},
    "calls": {"ArrowBufferAppendUnsafe": "vp_append_unsafe", "ArrowBufferReserve": "vp_reserve"}}}}
for _v in (2, 3, 4):
    for _s in (1, _v):
        WKBV.append("wkbw-coords-%d-%d" % (_v, _s))
        unit(WKBV[-1], "wkb_write.c", ["coords_wkb"], entry="harness_coords", annot=_cw, unwind=34, defines=["VP_NV=%d" % _v, "VP_STRIDE=%d" % _s])
WKBV.append("wkbw-append-unsafe")
unit(WKBV[-1], "wkb_write.c", ["ArrowBufferAppendUnsafe"], entry="harness_append_unsafe", unwind=34)
for _k, _f in enumerate(("ArrowBufferAppendUInt8", "ArrowBufferAppendUInt32", "ArrowBufferAppend")):
    WKBV.append("wkbw-put-%d" % _k)
    unit(WKBV[-1], "wkb_write.c", [_f, "_ArrowGrowByFactor"], entry="harness_put", unwind=34, defines=["VP_PUT=%d" % _k])
WKBV.append("wkbw-reserve")
unit(WKBV[-1], "wkb_write.c", ["ArrowBufferReserve", "_ArrowGrowByFactor"], entry="harness_reserve", unwind=34)
_bm = {"ArrowBitmapReserve": "vp_bitmap_reserve", "ArrowBitmapAppendUnsafe": "vp_bitmap_append_unsafe", "ArrowBitmapAppend": "vp_bitmap_append"}
_wv = {"wkb_writer.c": {"feat_end_wkb": {"calls": _bm}, "GeoArrowWKBWriterAppendValidity": {"calls": _bm},
                        "GeoArrowWKBWriterAppend": {"calls": {"GeoArrowWKBWriterAppendBuffer": "vp_append_buffer"}}}}
unit("wkbw-feat", "wkb_write.c", ["feat_start_wkb", "null_feat_wkb", "feat_end_wkb"], entry="harness_feat", annot=_wv, unwind=34)
unit("wkbw-append", "wkb_write.c", ["GeoArrowWKBWriterAppend", "GeoArrowWKBWriterAppendValidity"], entry="harness_append", annot=_wv, unwind=34)
unit("wkbw-append-null", "wkb_write.c", ["GeoArrowWKBWriterAppendNull", "GeoArrowWKBWriterAppendValidity"], entry="harness_append_null", annot=_wv, unwind=34)
unit("wkbw-finish", "wkb_write.c", ["GeoArrowWKBWriterFinish"], entry="harness_finish", annot=_wv, unwind=34)
_st = {"wkb_writer.c": {"GeoArrowWKBWriterAppendSequence": {"calls": {"GeoArrowGeometryNodeWriteSequence": "vp_write_sequence", "ArrowBufferReserve": "vp_reserve"}}}}
unit("wkbw-sequence", "wkb_write.c", ["GeoArrowWKBWriterAppendSequence"], entry="harness_sequence", annot=_st, unwind=4)
_nd = {"wkb_writer.c": {"GeoArrowWKBWriterAppendBuffer": {"nloops": 1, "loops": {0: ("NODES", "$0, node, remaining_rings")},
      "calls": dict(_p8, **_p32, **_p, GeoArrowWKBWriterAppendSequence="vp_append_sequence")}}}
unit("wkbw-nodes", "wkb_write.c", ["GeoArrowWKBWriterAppendBuffer"], entry="harness_nodes", annot=_nd, unwind=34)

# --- geometries ---
_an = {"GeoArrowGeometryAppendNodeInline": "vp_append_node"}
GEOM = ["geom-append", "geom-append-slow", "geom-resize", "geom-reserve-coords", "geom-start", "geom-ring-start", "geom-ends", "geom-feat-start", "geom-feat-end"]
unit("geom-append", "geometry.c", ["GeoArrowGeometryAppendNodeInline"], entry="harness_append", unwind=6,
     annot={"geoarrow_type_inline.h": {"GeoArrowGeometryAppendNodeInline": {"calls": {"GeoArrowGeometryAppendNode": "vp_append_slow", "memset": "vp_memset"}}}})
unit("geom-append-slow", "geometry.c", ["GeoArrowGeometryAppendNode", "GeoArrowGeometrySyncGeomToNodes", "GeoArrowGeometrySyncNodesToGeom"], entry="harness_append_slow", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryAppendNode": {"calls": {"GeoArrowGeometryAppendNodeInline": "vp_append_room"}}}})
unit("geom-resize", "geometry.c", ["GeoArrowGeometryResizeNodes"], entry="harness_resize", unwind=6)
unit("geom-shallow", "geometry.c", ["GeoArrowGeometryShallowCopy"], entry="harness_shallow", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryShallowCopy": {"calls": {"memcpy": "vp_memcpy"}}}})
unit("geom-reserve-coords", "geometry.c", ["GeoArrowGeometryReserveCoords", "GeoArrowGeometryReallocCoords"], entry="harness_reserve_coords", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryReallocCoords": {"nloops": 2, "loops": {0: ("MOVE", "node, $1->data")}, "calls": {"ArrowBufferReserve": "vp_reserve", "ArrowBufferAppend": "vp_append"}}}})
unit("geom-start", "geometry.c", ["geom_start_geometry"], entry="harness_geom_start", unwind=6,
     annot={"geometry.c": {"geom_start_geometry": {"calls": dict(_an, GeoArrowGeometryReserveCoords="vp_reserve_coords")}}})
unit("geom-ring-start", "geometry.c", ["ring_start_geometry"], entry="harness_ring_start", unwind=6,
     annot={"geometry.c": {"ring_start_geometry": {"calls": {"geom_start_geometry": "vp_geom_start"}}}})
unit("geom-ends", "geometry.c", ["ring_end_geometry", "geom_end_geometry"], entry="harness_ends", unwind=6)
unit("geom-feat-start", "geometry.c", ["feat_start_geometry"], entry="harness_feat_start", unwind=6)
unit("geom-feat-end", "geometry.c", ["feat_end_geometry"], entry="harness_feat_end", unwind=34,
     annot={"geometry.c": {"feat_end_geometry": {"nloops": 1, "loops": {0: ("SIZE", "node, sizes, end")}}}})
for _v in (2, 3, 4):
    for _s in (1, _v):
        GEOM.append("geom-coords-%d-%d" % (_v, _s))
        unit(GEOM[-1], "geometry.c", ["coords_geometry"], entry="harness_coords", unwind=6, defines=["VP_NV=%d" % _v, "VP_DIMS=0", "VP_STRIDE=%d" % _s],
             annot={"geometry.c": {"coords_geometry": {"nloops": 2, "loops": {0: ("PUT", "values, $i")}, "calls": {"GeoArrowGeometryReserveCoords": "vp_reserve_coords"}}}})
VISIT = ["visit-node", "visit-root"]
unit("visit-node", "geometry.c", ["GeoArrowGeometryVisitNode"], entry="harness_visit_node", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryVisitNode": {"nloops": 2, "loops": {0: ("RING", "$i, $1"), 1: ("KID", "$i, $1, child")},
            "calls": {"GeoArrowGeometryVisitSequence": "vp_visit_seq", "GeoArrowGeometryVisitNode": "vp_visit_node"}}}})
_vr = {"calls": {"GeoArrowGeometryVisitNode": "vp_visit_root"}}
unit("visit-root", "geometry.c", ["GeoArrowGeometryVisit", "GeoArrowGeometryViewVisit"], entry="harness_visit_root", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryVisit": _vr, "GeoArrowGeometryViewVisit": _vr}})
for _d in _D:
    VISIT.append("visit-seq-" + _d[0])
    unit(VISIT[-1], "geometry.c", ["GeoArrowGeometryVisitSequence"], entry="harness_visit_seq", unwind=6, defines=["VP_NV=%d" % _d[2], "VP_STRIDE=1", "VP_DIMS=%d" % _d[1]],
         annot={"geometry.c": {"GeoArrowGeometryVisitSequence": {"nloops": 3, "loops": {1: ("CHUNK", "n_coords, node_cursor, coord_view")},
                "calls": {"GeoArrowGeometryNodeWriteSequence": "vp_write_chunk"}}}})
unit("geom-deep", "geometry.c", ["GeoArrowGeometryDeepCopy"], entry="harness_deep", unwind=6,
     annot={"geometry.c": {"GeoArrowGeometryDeepCopy": {"nloops": 3, "loops": {0: ("TOTAL", "node, total_bytes_required"), 1: ("CPY", "node, coords_buf, coords_buf_size")},
            "calls": {"GeoArrowGeometryNodeWriteSequence": "vp_write_seq", "ArrowBufferResize": "vp_resize", "GeoArrowGeometryShallowCopy": "vp_shallow"}}}})

# --- WKT reader ---
_ws = {"GeoArrowWKTSkipWhitespace": "vp_skip_ws"}
_wkt = dict(_ws, GeoArrowWKTAssertWordEmpty="vp_word_empty", GeoArrowWKTAssertWhitespace="vp_assert_ws", ReadOrdinate="vp_ordinate", ReadCoordinate="vp_coordinate",
            ReadEmptyOrCoordinates="vp_empty_or_coords", ReadEmptyOrPointCoordinate="vp_empty_or_point", ReadPolygon="vp_polygon", ReadMultipointFlat="vp_flat",
            ReadMultipoint="vp_multipoint", ReadMultilinestring="vp_multiline", ReadMultipolygon="vp_multipoly", ReadGeometryCollection="vp_collection",
            ReadTaggedGeometry="vp_tagged", GeoArrowWKTPeekUntilSep="vp_peek_word", strncmp="vp_strncmp", PeekChar="vp_peek_char", GeoArrowWKTAssertChar="vp_assert_char")
_until = {"wkt_reader.c": {"GeoArrowWKTSkipUntil": {"nloops": 2, "loops": {0: ("UNTIL", "$0, $1")}}}}
WKT = []
def _w(name, fns, entry, loops=None, fn=None, **kw):
    WKT.append("wktr-" + name)
    a = dict(kw.pop("annot", {}))
    if fn:
        spec = {"calls": {c: t for c, t in _wkt.items() if c != fn or c == "ReadTaggedGeometry"}}
        if loops:
            spec.update(nloops=1, loops={0: ("LIST", "$0")})
        a.setdefault("wkt_reader.c", {})[fn] = spec
    unit(WKT[-1], "wkt_read.c", fns, entry="harness_" + entry, unwind=kw.pop("unwind", 10), annot=a, **kw)
_w("whitespace", ["GeoArrowWKTSkipWhitespace"], "ws", annot={"wkt_reader.c": {"GeoArrowWKTSkipWhitespace": {"nloops": 1, "loops": {0: ("WS", "$0")}}}})
_w("assert", ["GeoArrowWKTAssertChar", "GeoArrowWKTAssertWhitespace", "PeekChar"], "assert", annot={"wkt_reader.c": {"GeoArrowWKTAssertWhitespace": {"calls": {"GeoArrowWKTSkipWhitespace": "vp_skip_ws_text"}}}})
_w("until", ["GeoArrowWKTSkipUntil", "GeoArrowWKTSkipUntilSep"], "until", annot=_until)
_w("peek", ["GeoArrowWKTPeekUntilSep", "GeoArrowWKTSkipUntil"], "peek", annot=_until)
_w("empty", ["GeoArrowWKTAssertWordEmpty"], "empty", annot={"wkt_reader.c": {"GeoArrowWKTAssertWordEmpty": {"calls": {"GeoArrowWKTPeekUntilSep": "vp_peek"}}}})
_w("ordinate", ["ReadOrdinate"], "ordinate", annot={"wkt_reader.c": {"ReadOrdinate": {"calls": {"GeoArrowWKTSkipUntilSep": "vp_until_sep"}}}})
_w("coordinate", ["ReadCoordinate", "FlushCoordCache"], "coordinate", fn="ReadCoordinate")
_w("coords", ["ReadEmptyOrCoordinates", "FlushCoordCache", "ResetCoordCache"], "coords", True, "ReadEmptyOrCoordinates")
_w("flat", ["ReadMultipointFlat"], "flat", True, "ReadMultipointFlat")
_w("point", ["ReadEmptyOrPointCoordinate"], "point", False, "ReadEmptyOrPointCoordinate")
_w("polygon", ["ReadPolygon"], "polygon", True, "ReadPolygon")
_w("multipoint", ["ReadMultipoint"], "multipoint", True, "ReadMultipoint")
_w("multilinestring", ["ReadMultilinestring"], "multiline", True, "ReadMultilinestring")
_w("multipolygon", ["ReadMultipolygon"], "multipoly", True, "ReadMultipolygon")
_w("collection", ["ReadGeometryCollection"], "collection", True, "ReadGeometryCollection")
_w("tagged", ["ReadTaggedGeometry"], "tagged", False, "ReadTaggedGeometry", unwind=20)
_w("visit", ["GeoArrowWKTReaderVisit"], "visit", False, "GeoArrowWKTReaderVisit")
_w("init", ["GeoArrowWKTReaderInit", "GeoArrowWKTReaderReset"], "init")
_w("chars", ["GeoArrowFromChars"], "chars", defines=["VP_CHARS"], unwind=66)

# --- WKT writer ---
WKTV = []
def _v(name, fns, entry, annot=None, **kw):
    WKTV.append("wktw-" + name)
    unit(WKTV[-1], "wkt_write.c", fns, entry="harness_" + entry, unwind=kw.pop("unwind", 42), annot=annot, **kw)
_vp = {"wkt_writer.c": {"WKTWriterWrite": {"calls": {"ArrowBufferAppend": "vp_put"}}}}
_v("geom-start", ["geom_start_wkt", "WKTWriterWrite", "WKTWriterCheckLevel"], "opens", _vp)
_v("ring-start", ["ring_start_wkt", "WKTWriterWrite", "WKTWriterCheckLevel"], "opens", _vp, defines=["VP_RING=1"])
_v("geom-end", ["geom_end_wkt", "WKTWriterWrite"], "ends", _vp)
_v("ring-end", ["ring_end_wkt", "WKTWriterWrite"], "ends", _vp, defines=["VP_RING=1"])
_vc = {"wkt_writer.c": {"coords_wkt": {"nloops": 3, "loops": {1: ("WTC", "private, $i")},
    "calls": {"ArrowBufferAppendUnsafe": "vp_append_unsafe", "ArrowBufferReserve": "vp_reserve"}}}}
for _k in (2, 3, 4):
    for _s in (1, _k):
        _v("coords-%d-%d" % (_k, _s), ["coords_wkt", "WKTWriterWriteDoubleUnsafe"], "coords", _vc, defines=["VP_NV=%d" % _k, "VP_STRIDE=%d" % _s])
_vf = {"wkt_writer.c": {"feat_end_wkt": {"calls": _bm}}}
_v("feat", ["feat_start_wkt", "null_feat_wkt", "feat_end_wkt"], "feat", _vf)
_v("finish", ["GeoArrowWKTWriterFinish"], "finish", _vf)
_v("visitor", ["GeoArrowWKTWriterInitVisitor"], "visitor")
_v("print", ["GeoArrowPrintDouble"], "print", defines=["VP_PRINT"], unwind=402)

# --- metadata ---
META = []
METAW = []
def _m(lst, name, fns, entry, spec=None, **kw):
    lst.append("meta-" + name)
    unit(lst[-1], "metadata.c", fns, entry="harness_" + entry, unwind=kw.pop("unwind", 26), annot={"metadata.c": spec} if spec else None,
         defines=kw.pop("defines", []) + ([] if any(d.startswith("VP_ITEMS") for d in kw.get("d", [])) else ['VP_ITEMS="x"']), **kw)
_m(META, "whitespace", ["SkipWhitespace"], "ws", {"SkipWhitespace": {"nloops": 1, "loops": {0: ("WS", "$0")}}})
for _k, _i in enumerate(('[{\\"]', '{[\\"}', ',}')):
    META.append("meta-until-%d" % _k)
    unit(META[-1], "metadata.c", ["SkipUntil"], entry="harness_until", unwind=26, annot={"metadata.c": {"SkipUntil": {"nloops": 2, "loops": {0: ("UNTIL", "$0, $1")}}}},
         defines=['VP_ITEMS="%s"' % _i])
_m(META, "char", ["ParseChar"], "char")
_m(META, "null", ["FindNull"], "null")
_m(META, "string", ["FindString"], "string", {"FindString": {"nloops": 1, "loops": {0: ("STR", "$0, $1")}}})
_fc = {"SkipUntil": "vp_skip_until", "FindString": "vp_find_string", "FindList": "vp_find_list", "FindObject": "vp_find_object"}
_m(META, "list", ["FindList"], "nested", {"FindList": {"nloops": 1, "loops": {0: ("MEM", "$0, $1")}, "calls": _fc}})
_m(META, "object", ["FindObject"], "nested", {"FindObject": {"nloops": 1, "loops": {0: ("MEM", "$0, $1")}, "calls": _fc}}, defines=["VP_OBJECT=1"])
_m(META, "parse", ["ParseJSONMetadata", "ParseChar"], "parse", {"ParseJSONMetadata": {"nloops": 1, "loops": {0: ("META", "$1, $0")},
   "calls": {"SkipUntil": "vp_skip_until", "SkipWhitespace": "vp_skip_ws", "FindString": "vp_v_string", "FindList": "vp_v_list", "FindObject": "vp_v_object", "FindNull": "vp_v_null", "strncmp": "vp_compare"}}})
_m(META, "view", ["GeoArrowMetadataViewInit", "GeoArrowMetadataViewInitJSON"], "view", {"GeoArrowMetadataViewInitJSON": {"calls": {"SkipWhitespace": "vp_skip_ws", "ParseJSONMetadata": "vp_parse_json"}}})
_m(METAW, "size", ["GeoArrowMetadataCalculateSerializedSize", "GeoArrowMetadataCrsNeedsEscape"], "size", {"GeoArrowMetadataCalculateSerializedSize": {"nloops": 1, "loops": {0: ("CNT", "size_out, $i")}}})
_m(METAW, "write", ["GeoArrowMetadataSerializeInternal", "GeoArrowWriteString"], "write", {"GeoArrowMetadataSerializeInternal": {"nloops": 1, "loops": {0: ("ESCW", "$1, $i")}, "calls": {"GeoArrowWriteStringView": "vp_write_view"}},
   "GeoArrowWriteString": {"calls": {"GeoArrowWriteStringView": "vp_write_view"}}})
_ms = {"GeoArrowMetadataCalculateSerializedSize": "vp_size_of", "GeoArrowMetadataSerializeInternal": "vp_serialize", "ArrowBufferReset": "vp_buffer_reset"}
_m(METAW, "serialize", ["GeoArrowMetadataSerialize"], "serialize", {"GeoArrowMetadataSerialize": {"calls": _ms}})
_m(METAW, "schema", ["GeoArrowSchemaSetMetadata", "GeoArrowSchemaSetMetadataInternal"], "schema", {"GeoArrowSchemaSetMetadataInternal": {"calls": _ms}})
_m(METAW, "unescape", ["GeoArrowUnescapeCrs"], "unescape", {"GeoArrowUnescapeCrs": {"nloops": 1, "loops": {0: ("UNESC", "out_i, $i")}, "calls": {"memcpy": "vp_copy"}}})

# --- kernels ---
KERN = []
def _k(name, fns, entry, spec=None, defines=[], **kw):
    KERN.append("kern-" + name)
    kw.setdefault("unwind", 42)
    unit(KERN[-1], "kernel.c", fns, entry="harness_" + entry, annot={"kernel.c": spec} if spec else None,
         defines=["VP_STRIDE=%d" % kw.pop("stride", 1), "VP_AGG=%d" % kw.pop("agg", 0), "VP_BY=%d" % kw.pop("by", 0)] + defines, **kw)
_kt = {"ArrowArrayBuffer": "vp_array_buffer", "ArrowBufferReserve": "vp_reserve", "ArrowArrayMove": "vp_array_move", "_GeoArrowArrayFindBuffer": "vp_find"}
_kb = {"ArrowBitmapAppend": "vp_bitmap_append", "ArrowBitmapReset": "vp_bitmap_reset", "ArrowBufferAppendDouble": "vp_append_double", "array_box": "vp_array_box", "ArrowArrayMove": "vp_array_move", "_GeoArrowArrayFindBuffer": "vp_find"}
_k("types", ["feat_start_geometry_types", "geom_start_geometry_types", "coords_geometry_types"], "types")
_k("types-finish", ["kernel_finish_unique_geometry_types_agg"], "types_finish", {"kernel_finish_unique_geometry_types_agg": {"nloops": 2, "loops": {0: ("COUNT", "n_types, $i"), 1: ("CODES", "result_i, $i")}, "calls": _kt}})
for _s in (1, 2, 3, 4):
    _k("box-coords-%d" % _s, ["coords_box"], "box_coords", {"coords_box": {"nloops": 2, "loops": {1: ("BOX", "private_data, dim_i, $i")}}}, stride=_s)
_k("box-feat", ["feat_start_box", "null_feat_box", "feat_end_box", "box_flush"], "box_feat", {"feat_end_box": {"calls": _kb}, "box_flush": {"calls": _kb}})
for _a in (0, 1):
    _k("box-finish-%d" % _a, ["box_finish", "box_flush", "kernel_finish_box_agg" if _a else "finish_push_batch_box"], "box_finish", {"box_finish": {"calls": _kb}, "box_flush": {"calls": _kb}}, agg=_a)
_kv = {"GeoArrowArrayReaderVisit": "vp_visit", "GeoArrowArrayReaderSetArray": "vp_set_array"}
_k("batch", ["kernel_push_batch"], "batch", {"kernel_push_batch": {"calls": _kv}})
_k("batch-by-feature", ["kernel_push_batch_by_feature"], "batch", {"kernel_push_batch_by_feature": {"nloops": 1, "loops": {0: ("FEAT", "$i")}, "calls": _kv}}, by=1)

# --- array views and readers ---
AVIEW = []
def _av(name, fn, kind, nv, stride, loops, first="FEAT"):
    ids = [(first, "coords, $i"), ("PART", "coords, $i"), ("RING", "coords, $i")]
    AVIEW.append("view-" + name)
    unit(AVIEW[-1], "array_view.c", [fn, "GeoArrowCoordViewUpdate", "GeoArrowArrayViewVisitNative"], entry="harness_visit", unwind=6,
         defines=["VP_KIND=%d" % kind, "VP_NV=%d" % nv, "VP_STRIDE=%d" % stride],
         annot={"array_view.c": {fn: {"nloops": loops, "loops": {n: ids[n] for n in range(loops if kind != 1 else 1)}}}})
for _n, _kd, _l in (("point", 1, 2), ("linestring", 2, 1), ("polygon", 3, 2), ("multipoint", 4, 2), ("multilinestring", 5, 2), ("multipolygon", 6, 3)):
    for _nv, _s in ((2, 1), (4, 4)) if _kd > 3 else ((2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 4)):
        _av("%s-%d%s" % (_n, _nv, "s" if _s == 1 else "i"), "GeoArrowArrayViewVisitNative" + _n.capitalize(), _kd, _nv, _s, _l, "FEATP" if _kd == 1 else "FEAT")
AVIEW.append("view-box")
unit("view-box", "array_view.c", ["GeoArrowArrayViewVisitNativeBox", "GeoArrowArrayViewVisitNative"], entry="harness_visit", unwind=6, defines=["VP_KIND=990"],
     annot={"array_view.c": {"GeoArrowArrayViewVisitNativeBox": {"nloops": 3, "loops": {0: ("FEATB", "$i, poly_coords, x, y")}}}})
ATT = []
def _at(name, fns, kind, nv, inter, typ):
    ATT.append("attach-" + name)
    unit(ATT[-1], "array_view.c", ["GeoArrowArrayViewSetArray"] + fns, entry="harness_attach", unwind=10,
         defines=["VP_KIND=%d" % kind, "VP_NV=%d" % nv, "VP_INTER=%d" % inter, "VP_TYPE=%s" % typ])
for _n, _kd in (("point", 1), ("linestring", 2), ("polygon", 3), ("multipolygon", 6)):
    for _nv in (2, 3, 4):
        for _i in (0, 1):
            _at("%s-%d%s" % (_n, _nv, "si"[_i]), ["GeoArrowArrayViewSetArrayInternal"], _kd, _nv, _i, "GEOARROW_TYPE_POINT")
for _nv in (2, 3, 4):
    _at("box-%d" % _nv, ["GeoArrowArrayViewSetArrayBox"], 990, _nv, 0, "GEOARROW_TYPE_BOX" + {2: "", 3: "_M", 4: "_ZM"}[_nv])
_at("wkb", ["GeoArrowArrayViewSetArraySerialized"], 0, 0, 0, "GEOARROW_TYPE_WKB")
_at("wkt", ["GeoArrowArrayViewSetArraySerialized"], 0, 0, 0, "GEOARROW_TYPE_WKT")
ATT.append("view-init")
unit("view-init", "array_view.c", ["GeoArrowArrayViewInitInternal", "GeoArrowArrayViewInitFromType", "GeoArrowArrayViewInitFromSchema"], entry="harness_view_init", unwind=10)

READER = []
_rv = {"ArrowArrayViewIsNull": "vp_view_is_null", "ArrowArrayViewGetStringUnsafe": "vp_view_string", "ArrowArrayViewGetBytesUnsafe": "vp_view_bytes"}
for _t, _f in (("WKT", "WKT"), ("WKB", "WKB"), ("LARGE_WKT", "WKTArrow"), ("WKT_VIEW", "WKTArrow"), ("LARGE_WKB", "WKBArrow"), ("WKB_VIEW", "WKBArrow"), ("POINT", None)):
    READER.append("reader-" + _t.lower().replace("_", "-"))
    unit(READER[-1], "array_reader.c", ["GeoArrowArrayReaderVisit"] + (["GeoArrowArrayReaderVisit" + _f] if _f else []), entry="harness_visit",
         defines=["VP_T=GEOARROW_TYPE_" + _t],
         annot={"array_reader.c": {"GeoArrowArrayReaderVisit" + _f: {"nloops": 1, "loops": {0: ("FEAT", "$i")}, "calls": _rv}}} if _f else None)
READER.append("reader-life")
_rl = {"ArrowMalloc": "vp_malloc", "ArrowFree": "vp_free", "ArrowArrayViewInitFromType": "vp_init_arrow", "ArrowArrayViewSetArray": "vp_set_arrow"}
_rf = ["GeoArrowArrayReaderInitInternal", "GeoArrowArrayReaderInitFromType", "GeoArrowArrayReaderInitFromSchema", "GeoArrowArrayReaderReset", "GeoArrowArrayReaderSetArray", "GeoArrowArrayReaderArrayView"]
unit("reader-life", "array_reader.c", _rf, entry="harness_life", annot={"array_reader.c": {f: {"calls": _rl} for f in _rf}})

# --- builder ---
BUILD = []
_bc = {"ArrowBufferReserve": "vp_reserve", "memcpy": "vp_copy", "GeoArrowCoordViewCopy": "vp_coord_copy"}
_bl = {"ArrowMalloc": "vp_malloc", "ArrowFree": "vp_free", "ArrowBufferReset": "vp_buffer_reset", "ArrowBufferDeallocator": "vp_deallocator", "ArrowArrayInitFromSchema": "vp_init_array",
       "ArrowArrayBuffer": "vp_array_buffer", "ArrowArrayValidityBitmap": "vp_array_bitmap", "ArrowArrayFinishBuildingDefault": "vp_finish_array", "ArrowArrayMove": "vp_array_move", "_GeoArrowArrayFindBuffer": "vp_find"}
def _bu(name, fns, entry, bfns=[], ifns=[], defines=[], **kw):
    BUILD.append("build-" + name)
    kw.setdefault("unwind", 10)
    a = {}
    if bfns: a["builder.c"] = {f: {"calls": dict(_bc, **_bl)} for f in bfns}
    if ifns: a["geoarrow_type_inline.h"] = {f: {"calls": _bc} for f in ifns}
    unit(BUILD[-1], "builder.c", fns, entry="harness_" + entry, annot=a, defines=defines, **kw)
_bi = ["GeoArrowBuilderBufferCheck", "GeoArrowBuilderAppendBufferUnsafe", "GeoArrowBuilderAppendBuffer", "GeoArrowBuilderOffsetCheck", "GeoArrowBuilderOffsetAppendUnsafe", "GeoArrowBuilderOffsetAppend", "GeoArrowBuilderOffsetReserve"]
_bco = ["GeoArrowBuilderCoordsCheck", "GeoArrowBuilderCoordsReserve", "GeoArrowBuilderCoordsAppendUnsafe", "GeoArrowBuilderCoordsAppend"]
for _b in range(9): _bu("append-%d" % _b, ["GeoArrowBuilderReserveBuffer"] + _bi, "append", ["GeoArrowBuilderReserveBuffer"], _bi, ["VP_I=%d" % _b])
for _nv, _i in ((2, 0), (3, 0), (4, 0), (6, 0), (2, 1), (3, 1), (4, 1)):
    _bu("coords-%d%s" % (_nv, "si"[_i]), ["GeoArrowBuilderReserveBuffer"] + _bco, "coords", ["GeoArrowBuilderReserveBuffer"], _bco, ["VP_NV=%d" % _nv, "VP_INTER=%d" % _i], solver=["--sat-solver", "cadical"] if _nv in (3, 6, 8) else (), mem=10 if _nv > 4 else 5)
_bu("owned", ["GeoArrowBuilderSetOwnedBuffer", "GeoArrowBufferDeallocateWrapper"], "owned", ["GeoArrowBuilderSetOwnedBuffer", "GeoArrowBufferDeallocateWrapper"])
_bf = ["GeoArrowBuilderFinish", "GeoArrowSetArrayLengthFromBufferLength", "GeoArrowSetCoordContainerLength", "GeoArrowBuilderInitArrayAndCachePointers"]
_bn = ["GeoArrowBuilderInitInternal", "GeoArrowBuilderInitFromType", "GeoArrowBuilderInitFromSchema", "GeoArrowBuilderReset", "GeoArrowBuilderInitArrayAndCachePointers"]
def _tree():
    for kd, n in ((1, "POINT"), (2, "LINESTRING"), (3, "POLYGON"), (4, "MULTIPOINT"), (5, "MULTILINESTRING"), (6, "MULTIPOLYGON")):
        for nv, z in ((2, ""), (3, "_Z"), (4, "_ZM")):
            for i in (0, 1):
                yield "%s-%d%s" % (n.lower(), nv, "si"[i]), kd, nv, i, ("INTERLEAVED_" if i else "") + n + z
    for nv, z in ((4, ""), (6, "_Z"), (8, "_ZM")): yield "box-%d" % nv, 990, nv, 0, "BOX" + z
    for t in ("WKB", "LARGE_WKB", "WKT", "LARGE_WKT"): yield t.lower().replace("_", "-"), 0, 1, 0, t
for _n, _kd, _nv, _i, _t in _tree():
    _d = ["VP_KIND=%d" % _kd, "VP_NV=%d" % _nv, "VP_INTER=%d" % _i, "VP_TYPE=GEOARROW_TYPE_" + _t]
    _bu("finish-" + _n, _bf, "finish", _bf, [], _d)
    _bu("init-" + _n, _bn, "init", _bn, [], _d)
    _bu("find-" + _n, ["_GeoArrowArrayFindBuffer"], "find", [], [], _d, unwind=14)
NEV, NAPP, NLIFE = [], [], []
_nw = {"ArrowBitmapReserve": "vp_bitmap_reserve", "ArrowBitmapAppendUnsafe": "vp_bitmap_append_unsafe", "ArrowBitmapAppend": "vp_bitmap_append",
       "GeoArrowBuilderOffsetAppend": "vp_offset_append", "GeoArrowBuilderCoordsAppend": "vp_coords_append"}
_nl = {"ArrowMalloc": "vp_malloc", "ArrowFree": "vp_free", "ArrowBitmapReset": "vp_bitmap_clear", "ArrowBitmapResize": "vp_bitmap_resize", "ArrowArrayMove": "vp_array_move", "ArrowArrayRelease": "vp_array_release",
       "GeoArrowBuilderAppendBuffer": "vp_buffer_append"}
_FAM = {0: ("point", "Point"), 1: ("multipoint", "Linestring"), 2: ("multilinestring", "MultiLinestring"), 3: ("multipolygon", "MultiPolygon")}
def _nu(L, name, fns, entry, calls, o, ann=None, k=None, **kw):
    L.append("native-" + name)
    a = {f: dict(calls=calls) for f in fns}
    for f, x in (ann or {}).items(): a[f] = dict(a.get(f, {}), **x)
    kw.setdefault("unwind", 34)
    unit(L[-1], "native.c", fns, entry="harness_" + entry, annot={"native_writer.c": a}, defines=["VP_LV=%d" % o] + ([] if k is None else ["VP_KIND=%d" % k]), **kw)
for _k, _n, _o in ((1, "point", 0), (2, "linestring", 1), (3, "polygon", 2), (4, "multipoint", 1), (5, "multilinestring", 2), (6, "multipolygon", 3)):
    _f, _v = _FAM[_o]
    _ini = ["GeoArrowNativeWriterInitVisitor", "GeoArrowVisitorInit" + _v]
    _nu(NEV, "start-" + _n, ["feat_start_" + _f] + _ini, "start", _nw, _o, k=_k)
    _nu(NEV, "inside-" + _n, [x + "_" + _f for x in ("null_feat", "geom_start", "ring_start", "coords", "ring_end", "geom_end")] + _ini, "inside", _nw, _o, k=_k)
    _nu(NEV, "end-" + _n, ["feat_end_" + _f] + (["coords_point"] if _o == 0 else []) + _ini, "end", _nw, _o, k=_k)
for _o in range(4):
    _nu(NLIFE, "finish-%d" % _o, ["GeoArrowNativeWriterFinish", "GeoArrowNativeWriterEnsureOutputInitialized"], "finish", dict(_nw, **_nl), _o)
    _nu(NLIFE, "life-%d" % _o, ["GeoArrowNativeWriterInit", "GeoArrowNativeWriterReset", "GeoArrowNativeWriterEnsureOutputInitialized"], "life", dict(_nw, **_nl), _o)
_N = "GeoArrowNativeWriter"
_mon = {_N + "AppendSize": "vp_size_append", _N + "AppendLinestringOffsets": "vp_lines", _N + "AppendPolygonOffsets": "vp_polys"}
_off = {_N + "AppendSize": "vo_size", _N + "AppendLinestringOffsets": "vo_lines", _N + "AppendPolygonOffsets": "vo_polys", _N + "AppendMultiPolygonOffsets": "vo_multi"}
_all = {_N + "AppendEmpty": "vp_empty", _N + "AppendOffsets": "vp_offsets", _N + "AppendValidity": "vp_validity", _N + "AppendCoordsUnsafe": "vp_coords_unsafe",
        "GeoArrowGeometryViewNumCoords": "vp_num_coords", "GeoArrowBuilderCoordsReserve": "vp_coords_reserve"}
_nu(NAPP, "size", [_N + "AppendSize"], "size", {"GeoArrowBuilderOffsetAppend": "vp_offset_append_size"}, 3)
_nu(NAPP, "lines", [_N + "AppendLinestringOffsets", _N + "CheckNodes"], "lines", _mon, 3, {_N + "AppendLinestringOffsets": {"nloops": 1, "loops": {0: ("LINES", "$1, $i")}}})
_nu(NAPP, "polys", [_N + "AppendPolygonOffsets", _N + "CheckNodes"], "polys", _mon, 3, {_N + "AppendPolygonOffsets": {"nloops": 1, "loops": {0: ("POLYS", "$1, $i")}}})
_nu(NAPP, "multi", [_N + "AppendMultiPolygonOffsets"], "multi", _mon, 3)
for _k, _n, _o in ((1, "point", 0), (2, "linestring", 1), (3, "polygon", 2), (4, "multipoint", 1), (5, "multilinestring", 2), (6, "multipolygon", 3)):
    _nu(NAPP, "offsets-" + _n, [_N + "AppendOffsets"], "offsets", _off, _o, k=_k)
    _nu(NAPP, "empty-" + _n, [_N + "AppendEmpty"], "empty", dict(_off, GeoArrowBuilderCoordsAppend="vp_coords_append"), _o, k=_k)
for _o in range(4):
    _nu(NAPP, "append-%d" % _o, [_N + "Append"], "append", _all, _o)
    _nu(NLIFE, "validity-%d" % _o, [_N + "AppendValidity"], "validity", _nw, _o)
_nu(NAPP, "null", [_N + "AppendNull"], "null", _all, 2)
_nu(NAPP, "coords", [_N + "AppendCoordsUnsafe"], "coords", {"GeoArrowGeometryViewCopyCoordsGeneric": "vp_copy_coords"}, 2)
SCHEMA = []
_P = "GeoArrowParse"
def _su(name, fns, entry, ann=None, defs=(), **kw):
    SCHEMA.append("schema-" + name)
    kw.setdefault("unwind", 34)
    unit(SCHEMA[-1], "schema.c", fns, entry="harness_" + entry, annot=ann or {}, defines=list(defs), **kw)
_sv = lambda f, c: {"schema_view.c": {f: dict(calls=c)}}
_su("struct", [_P + "PointStruct"], "struct", _sv(_P + "PointStruct", {"strlen": "vp_strlen"}))
_su("list", [_P + "PointFixedSizeList"], "list")
_su("nested", [_P + "NestedSchema"], "nested", _sv(_P + "NestedSchema", {_P + "PointStruct": "vp_point_struct", _P + "PointFixedSizeList": "vp_point_list"}))
_su("box-child", [_P + "BoxChild"], "box_child", _sv(_P + "BoxChild", {"strlen": "vp_strlen"}))
for _k in (4, 6, 8, 0):
    _su("box-%d" % _k, [_P + "Box"], "box", _sv(_P + "Box", {_P + "BoxChild": "vp_box_child"}), ["VP_KIDS=%d" % _k])
_su("internal", ["GeoArrowSchemaViewInitInternal"], "internal", _sv("GeoArrowSchemaViewInitInternal", {_P + "NestedSchema": "vp_nested", _P + "Box": "vp_box"}))
_su("view", ["GeoArrowSchemaViewInitFromStorage"], "view", _sv("GeoArrowSchemaViewInitFromStorage", {"GeoArrowSchemaViewInitInternal": "vp_internal"}))
_su("extension", ["GeoArrowSchemaViewInit"], "view_extension", _sv("GeoArrowSchemaViewInit", {"GeoArrowSchemaViewInitInternal": "vp_internal"}))
_su("type", ["GeoArrowSchemaViewInitFromType"], "type", _sv("GeoArrowSchemaViewInitFromType", {"strlen": "vp_strlen", "GeoArrowExtensionNameFromType": "vp_ext_name", "GeoArrowGeometryTypeFromType": "vp_geometry_of", "GeoArrowDimensionsFromType": "vp_dims_of", "GeoArrowCoordTypeFromType": "vp_coord_of"}))
_mk = {"GeoArrowSchemaInitListOf": "vp_list_of", "GeoArrowSchemaInitRect": "vp_rect", "GeoArrowSchemaInitCoordStruct": "vp_coord_struct", "GeoArrowSchemaInitCoordFixedSizeList": "vp_coord_list"}
_su("init", ["GeoArrowSchemaInit"], "init", {"schema.c": {"GeoArrowSchemaInit": dict(calls=_mk)}})
_su("ext", ["GeoArrowSchemaInitExtension"], "ext", {"schema.c": {"GeoArrowSchemaInitExtension": dict(calls={"GeoArrowSchemaInit": "vp_init_type", "ArrowBufferReset": "vp_buffer_reset"})}})
for _g, _n in ((1, "point"), (2, "linestring"), (3, "polygon"), (4, "multipoint"), (5, "multilinestring"), (6, "multipolygon"), (990, "box")):
    _sf = ["GeoArrowSchemaInit", "GeoArrowSchemaInitCoordFixedSizeList", "GeoArrowSchemaInitCoordStruct", "GeoArrowSchemaInitRect", "GeoArrowSchemaInitListOf"]
    _su("round-" + _n, _sf + ["GeoArrowSchemaViewInitInternal", _P + "NestedSchema", _P + "PointStruct", _P + "PointFixedSizeList", _P + "Box"], "round", {"schema_view.c": {_P + "PointFixedSizeList": dict(calls={"ArrowSchemaViewInit": "vp_svi"})}}, ["VP_GEOM=%d" % _g, "VP_TREE"])
_su("fail-list", ["GeoArrowSchemaInitCoordFixedSizeList"], "fail", {}, ["VP_FAIL=1"])
_su("fail-struct", ["GeoArrowSchemaInitCoordStruct"], "fail", {}, ["VP_FAIL=2"])
_su("fail-rect", ["GeoArrowSchemaInitRect"], "fail", {}, ["VP_FAIL=3"])
_su("fail-nested", ["GeoArrowSchemaInitListOf"], "fail", {"schema.c": {"GeoArrowSchemaInitListOf": dict(calls={"GeoArrowSchemaInitListOf": "vp_rec", "GeoArrowSchemaInitCoordStruct": "vp_leaf", "GeoArrowSchemaInitCoordFixedSizeList": "vp_leaf"})}}, ["VP_FAIL=4"])

# --- C22: the header-only parser, translated to C ------------------------------------------------------
HPP = []
def _hp(name, fns, calls=None, loops=None, **kw):
    HPP.append("hpp-" + name)
    a = {}
    for f in fns:
        s = dict(calls=calls or {})
        if loops and f in loops:
            s.update(nloops=1, loops={0: (loops[f], "$i, size")})
        if calls or loops:
            a["WKB" + ("Geometry_" if f in ("AppendSequence",) else "Parser_") + f] = s
    unit(HPP[-1], "wkb_parser.c", ["WKBParser::" + f for f in fns], entry="harness_" + name, annot={"wkb_parser.c": a} if a else {}, **kw)
_W = "WKBParser_"
_hp("geometry", ["ParseGeometry"], {_W + "ParsePoint": "vp_point", _W + "ParseSequence": "vp_sequence", _W + "ParsePolygon": "vp_polygon", _W + "ParseCollection": "vp_collection"})
_hp("point", ["ParsePoint", "NewSequenceAtCursor"], {"WKBGeometry_AppendSequence": "vp_new_sequence"})
_hp("sequence", ["ParseSequence", "NewSequenceAtCursor"], {"WKBGeometry_AppendSequence": "vp_new_sequence"})
_hp("polygon", ["ParsePolygon"], {_W + "ParseSequence": "vp_ring"}, {"ParsePolygon": "POLY"})
_hp("collection", ["ParseCollection"], {_W + "ParseGeometry": "vp_child", "WKBGeometry_AppendGeometry": "vp_new_geometry"}, {"ParseCollection": "COLL"})
_hp("parse", ["Parse_4"], {_W + "ParseGeometry": "vp_root"})
_hp("view", ["Parse_3"], {_W + "Parse_4": "vp_bytes"})
_hp("append", [])
