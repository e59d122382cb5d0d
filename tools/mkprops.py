#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/geoarrow/"
p("C01", "WKB reading never touches memory outside the input blob",
  "For every byte string and every length, reading it as well-known binary ends, reads no byte outside the blob, and either fails or yields a geometry whose every coordinate of every sequence lies entirely inside the blob. Reading the same reader with another blob afterwards gives the same guarantee.",
  ["inputs", "histories"], "all byte strings of all lengths, all element counts in them (including ones whose byte size wraps), any nesting, any reader state left by earlier blobs",
  "The tests read a few hand-made blobs and every truncation of some of them; the sizes and counts that wrap or run past the end are adversarial values nobody sampled.",
  [S + "wkb_reader.c", S + "geoarrow_type_inline.h", S + "geometry.c"],
  [("cursor and remaining-bytes bookkeeping", S + "wkb_reader.c: WKBReaderReadEndian, WKBReaderReadUInt32, WKBReaderReadNodeCoordinates"),
   ("recursion limit by node level", S + "wkb_reader.c: WKBReaderReadNodeGeometry")], ["GeoArrowWKBReaderRead", "GeoArrowWKBReaderVisit"])
p("C02", "WKB headers decode to the right type, dimensions, size and endianness",
  "For every accepted blob each decoded geometry has the geometry type, dimensions and element count that the ISO or EWKB header bytes denote in the byte order that header announces, and a sequence's coordinates are exactly the bytes that follow its header, marked for swapping when that byte order is not the native one. A header with an unknown type, or one cut short anywhere, is rejected.",
  ["inputs"], "all header bytes: both byte orders, all 2^32 type codes (ISO thousands, EWKB Z/M/SRID bits and their combinations), all counts",
  "Tests sample one code per type and dimension; the property ranges over all 2^32 codes, byte orders and counts.",
  [S + "wkb_reader.c"], [("header decode", S + "wkb_reader.c: WKBReaderReadNodeGeometry"), ("ring and child loop", S + "wkb_reader.c: WKBReaderReadNodeGeometry")], ["GeoArrowWKBReaderRead"])
p("C03", "WKB produced from visitor events is exact and order-safe",
  "For every order of visitor events each event appends exactly the bytes ISO WKB prescribes for it (native byte order, type code plus thousands for the dimensions, coordinates in order, NaN coordinates for an empty point), closing a geometry or ring stores its element count in that element's own count field, and no event touches memory it does not own. Bytes already written for earlier elements are never altered, and nesting deeper than supported is refused with an error.",
  ["inputs", "histories"], "every writer state reachable by any sequence of visitor calls, all geometry types, dimensions, coordinate views and counts, allocation failures included",
  "Tests replay a few geometries in the documented order; arbitrary orders, deep nesting and long coordinate sequences are a history and input quantifier.",
  [S + "wkb_writer.c"], [("per-level size back-patching", S + "wkb_writer.c: geom_start_wkb, ring_start_wkb, ring_end_wkb, geom_end_wkb"), ("coordinates append", S + "wkb_writer.c: coords_wkb")], ["GeoArrowWKBWriterInitVisitor callbacks"],
  [("level, size[], size_pos[]", "open elements and where their count fields are", S + "wkb_writer.c: struct WKBWriterPrivate")])
p("C04", "Appending a geometry to a WKB array encodes it exactly, element by element",
  "Appending a geometry to a WKB writer appends, for each of its nodes in order, exactly the ISO WKB header, count and coordinates (converted to native byte order) of that node, rings without a header, and an empty point as NaN coordinates, leaving earlier bytes untouched. Every successful append adds exactly one element whose offset is where its bytes start, and element data past the 32-bit offset limit is refused rather than wrapped.",
  ["inputs", "histories"], "all geometries (types, dimensions, sizes, strides, byte order flag) appended to a writer in any state",
  "Tests append small native-endian geometries; flags, strides, sizes near the limit and writer histories are not sampled.",
  [S + "wkb_writer.c", S + "geoarrow_type_inline.h"], [("node loop", S + "wkb_writer.c: GeoArrowWKBWriterAppendBuffer"), ("sequence copy", S + "geoarrow_type_inline.h: GeoArrowGeometryNodeWriteSequence")], ["GeoArrowWKBWriterAppend", "GeoArrowWKBWriterAppendNull"])
p("C05", "WKT reading is safe on every text and accepts only complete geometries",
  "For every text of every length, reading it as well-known text ends, reads no byte outside the text, keeps its coordinate cache in bounds, and uses bounded stack. When it succeeds, the whole text was consumed up to trailing whitespace and every geometry and ring event that was started was also ended, with every coordinate view it reports holding between 1 and 64 coordinates of 2 to 4 values.",
  ["inputs"], "all byte strings (embedded NULs, no terminator), any nesting depth, visitors that fail at any event",
  "Tests parse a few well-formed strings and some truncations; arbitrary bytes, lengths and depths are unbounded.",
  [S + "wkt_reader.c"], [("cursor helpers", S + "wkt_reader.c: GeoArrowWKTSkipWhitespace, GeoArrowWKTSkipUntil, GeoArrowWKTPeekUntilSep, ReadOrdinate"), ("grammar functions", S + "wkt_reader.c: ReadTaggedGeometry and below"), ("cache flush", S + "wkt_reader.c: ReadCoordinate, FlushCoordCache")], ["GeoArrowWKTReaderVisit"])
p("C06", "WKT writing stays inside its buffer and honours the element size limit",
  "For every order of visitor events, coordinates, precision and size limit, the WKT writer never writes outside the space it reserved and keeps bytes of earlier elements intact. With a size limit set, every finished element is at most that many bytes long, whether or not nulls occurred before; an element past the limit reports the retry code so that the caller can finish it, and nesting deeper than supported is refused.",
  ["inputs", "histories", "configurations"], "every writer state reachable by any sequence of visitor calls, all coordinate views, precisions -inf..+inf as clamped, all limits",
  "Tests check one limit on a null-free column; mixes of nulls, limits, depth and coordinate counts are a history quantifier.",
  [S + "wkt_writer.c", S + "double_print.c"], [("reservation arithmetic", S + "wkt_writer.c: coords_wkt"), ("element truncation", S + "wkt_writer.c: feat_end_wkt"), ("level check", S + "wkt_writer.c: WKTWriterCheckLevel")], ["GeoArrowWKTWriterInitVisitor callbacks"])
p("C07", "Type identifiers compose and decompose without loss",
  "Every type identifier decomposes into geometry type, dimensions and coordinate layout, and composing these gives the identifier back; composing with an unknown part, or an interleaved box, gives the uninitialised type. The extension name and the names of geometry types, dimensions, layouts, edges and reference system types agree with that decomposition for every value, and mapping one dimension set to another pairs exactly the ordinates both have.",
  ["inputs"], "all 2^32 values of each enumeration argument, and all triples",
  "Tests enumerate some valid members; the property also covers every invalid value and every combination.",
  [S + "geoarrow_type_inline.h"], [("identifier arithmetic", S + "geoarrow_type_inline.h: GeoArrowMakeType, GeoArrow*FromType"), ("names", S + "geoarrow_type_inline.h: GeoArrowExtensionNameFromType, GeoArrowGeometryTypeString, GeoArrowDimensionsString"), ("dimension map", S + "geoarrow_type_inline.h: GeoArrowMapDimensions")], ["GeoArrowMakeType", "GeoArrowDimensionsFromType", "GeoArrowExtensionNameFromType"])
p("C08", "Coordinates are copied exactly across dimensions, strides and byte order",
  "Copying coordinates between any two dimension sets puts every shared ordinate, bit for bit (after byte order conversion when the source is marked so), at the right place, fills ordinates the source lacks with NaN, and drops ordinates the destination lacks. It writes exactly the destination range asked for and nothing else, for interleaved, separated and arbitrary strided sources, and the size it reports for a sequence is the true size in bytes.",
  ["inputs"], "all pairs of dimensions, all counts, strides, offsets, bit patterns (NaN payloads included), both byte orders",
  "Tests use fixed small coordinate sets; counts, strides and payloads are unbounded.",
  [S + "geoarrow_type_inline.h"], [("dimension map", S + "geoarrow_type_inline.h: GeoArrowMapDimensions"), ("copies", S + "geoarrow_type_inline.h: GeoArrowCoordViewCopy, GeoArrowGeometryViewCopyCoordsGeneric, GeoArrowGeometryNodeWriteSequence")], ["GeoArrowCoordViewCopy", "GeoArrowGeometryViewCopyCoordsGeneric", "GeoArrowGeometryNodeWriteSequence"])
p("C09", "Visiting a slice of a native array reports exactly that slice",
  "For every accepted native array, offset and length, visiting reports one feature per element of the requested window in order, null exactly where the validity bitmap says so, with the nesting, counts and coordinates that the offset buffers denote after all parent and child array offsets are applied, and it reads no buffer element outside those ranges. A failing visitor callback stops the visit at once and its code is returned.",
  ["inputs"], "all geometry types, window positions, array and child offsets, offset-buffer contents that are valid Arrow, validity bitmaps, visitors failing anywhere",
  "Tests visit a handful of short arrays, mostly with zero offsets; combinations of outer and child offsets and lengths are unbounded.",
  [S + "array_view.c"], [("visit loops", S + "array_view.c: GeoArrowArrayViewVisitNative*"), ("coordinate window", S + "array_view.c: GeoArrowCoordViewUpdate")], ["GeoArrowArrayViewVisitNative"])
p("C10", "Attaching an array validates its layout or fails",
  "An array is accepted for a native or serialized type exactly if the numbers of its children and buffers, at every level of nesting, are those of that type; otherwise an error is returned, and no child or buffer that the array does not have is touched. For an accepted array the recorded length, validity, offsets and coordinate pointers are exactly those of the array, with offsets applied once.",
  ["inputs"], "all types, array lengths, offsets, child counts, buffer counts, child lengths and offset-buffer end values that the Arrow format allows",
  "Tests attach well-formed arrays and one or two malformed ones; the malformed space is open ended.",
  [S + "array_view.c"], [("layout validation", S + "array_view.c: GeoArrowArrayViewSetArray and helpers")], ["GeoArrowArrayViewSetArray", "GeoArrowArrayViewInitFromType"])
p("C11", "The native writer survives any event order and adds one element per feature",
  "For every order of visitor events the native writer never touches memory it does not own, keeps every offset buffer non-decreasing and bounded by the length of its child, and never alters what earlier features wrote. A feature that ends successfully adds exactly one element, null exactly if it was announced null; a feature that cannot be represented in the target type ends with an error.",
  ["histories", "inputs"], "every writer state reachable by any sequence of visitor calls, for every geometry type of the target, all dimensions and coordinate views",
  "Tests replay well-formed geometries; arbitrary event orders and long histories cannot be enumerated.",
  [S + "native_writer.c"], [("per-type visitor callbacks", S + "native_writer.c: *_point, *_multipoint, *_multilinestring, *_multipolygon"), ("offset append", S + "geoarrow_type_inline.h: GeoArrowBuilderOffsetAppend")], ["GeoArrowNativeWriterInitVisitor callbacks"])
p("C12", "Appending a geometry to a native array keeps offsets and coordinates aligned",
  "Appending a geometry (or a null) to a native writer either fails or adds exactly one element whose offsets at every nesting level increase by that geometry's own element counts and whose coordinates are exactly the geometry's, in the target's dimensions; an offset that would exceed the 32-bit range is refused. The node list of the geometry is never read past its end.",
  ["inputs", "histories"], "all target types, all node lists (also inconsistent ones), all sizes including ones near 2^31 and 2^32",
  "Tests append small consistent geometries; sizes near the limits and inconsistent node lists are not sampled.",
  [S + "native_writer.c"], [("offset recursion", S + "native_writer.c: GeoArrowNativeWriterAppend*"), ("coordinate append", S + "native_writer.c: GeoArrowNativeWriterAppendCoordsUnsafe")], ["GeoArrowNativeWriterAppend", "GeoArrowNativeWriterAppendNull"])
p("C13", "A geometry built from events is a faithful, self-consistent tree",
  "After any properly nested event sequence up to the supported depth, the built geometry lists one node per geometry or ring in event order with its type, dimensions, level and own number of children or coordinates, and each sequence's coordinates are those reported, also when storage had to move. For any other order of events nothing outside the geometry's storage is touched, and nesting that is too deep, or an end without a start, is refused.",
  ["histories", "inputs"], "all event sequences, all types and dimensions, any coordinate counts, empty members at any position",
  "Tests build a few geometries; the position of empty members, depth and reallocation points are unbounded.",
  [S + "geometry.c"], [("node append and level", S + "geometry.c: geom_start_geometry, geom_end_geometry"), ("size reconstruction", S + "geometry.c: feat_end_geometry"), ("storage move", S + "geometry.c: GeoArrowGeometryReallocCoords")], ["GeoArrowGeometryInitVisitor callbacks"])
p("C14", "Visiting a geometry reads only its nodes and reports balanced events",
  "Visiting any list of nodes, consistent or not, reads no node outside the list; a list whose counts ask for more or fewer nodes than it has is refused with an error. On success every started geometry and ring is ended, the coordinates of a sequence are reported in order, completely and in native byte order in chunks of at most the cache size, and a failing callback's code is returned at once.",
  ["inputs"], "all node lists and counts, all sequence lengths, strides and byte orders, visitors failing anywhere",
  "Tests visit a few consistent geometries and one with too many nodes; inconsistent counts and long sequences are unbounded.",
  [S + "geometry.c"], [("node budget", S + "geometry.c: GeoArrowGeometryVisitNode"), ("chunked sequence visit", S + "geometry.c: GeoArrowGeometryVisitSequence")], ["GeoArrowGeometryVisit", "GeoArrowGeometryViewVisit"])
p("C15", "Copies of geometries own equal data",
  "A deep copy of any geometry succeeds or fails cleanly; on success it has the same nodes, each sequence has the same ordinates as the source bit for bit as read through the node (byte order included), and its coordinates live in storage the copy owns. A shallow copy has exactly the same nodes.",
  ["inputs"], "all node lists, sequence sizes, strides, dimensions, both byte orders",
  "Tests deep-copy one or two small native-endian geometries.",
  [S + "geometry.c"], [("two-pass copy", S + "geometry.c: GeoArrowGeometryDeepCopy"), ("node copy", S + "geometry.c: GeoArrowGeometryShallowCopy")], ["GeoArrowGeometryDeepCopy", "GeoArrowGeometryShallowCopy"])
p("C16", "Extension metadata parsing is safe on every byte string",
  "For every byte string of every length, parsing it as extension metadata ends, reads no byte outside it, uses bounded stack, and either fails or reports edge type, coordinate reference system and its type as views inside that string. Recognised edge and system type names map to their own values and no other text does.",
  ["inputs"], "all byte strings (empty, embedded NULs, unterminated strings, deep nesting)",
  "Tests parse a dozen JSON snippets; the scanner must be safe on every byte string.",
  [S + "metadata.c"], [("JSON scanner", S + "metadata.c: SkipWhitespace, SkipUntil, FindNull, FindString, FindObject, FindList"), ("value dispatch", S + "metadata.c: ParseJSONMetadata")], ["GeoArrowMetadataViewInit"])
p("C17", "Serialized metadata has exactly the announced size and parses back",
  "Serializing metadata reports exactly the number of bytes that the text needs, writes exactly those bytes when the buffer is large enough and nothing past the buffer's end otherwise, and text inside is escaped so that parsing the result gives the same edge type, system type and system text. Unescaping a reference system likewise reports the full length and never writes past the buffer.",
  ["inputs"], "all edge and system types, all texts (any bytes, any length), all buffer sizes including none",
  "Tests serialize a few texts into ample buffers.",
  [S + "metadata.c"], [("size computation", S + "metadata.c: GeoArrowMetadataCalculateSerializedSize"), ("writer", S + "metadata.c: GeoArrowMetadataSerializeInternal"), ("unescape", S + "metadata.c: GeoArrowUnescapeCrs")], ["GeoArrowMetadataSerialize", "GeoArrowUnescapeCrs"])
p("C18", "Schemas and types are inverse to each other",
  "For every type identifier, creating a schema either fails or gives one that is recognised as exactly that type; a storage schema of another shape is rejected with an error and not misread. Viewing a schema reads only within that schema, for any format strings, child counts and names.",
  ["inputs"], "all 2^32 type identifiers; storage schemas with any child counts, names and formats",
  "Tests round-trip the valid types and a few bad schemas.",
  [S + "schema.c", S + "schema_view.c"], [("schema construction", S + "schema.c: GeoArrowSchemaInit"), ("schema recognition", S + "schema_view.c: GeoArrowSchemaViewInitFromStorage, GeoArrowSchemaViewInitFromType")], ["GeoArrowSchemaInit", "GeoArrowSchemaViewInitFromStorage", "GeoArrowSchemaViewInitFromType"])
p("C19", "Unique-types and bounding-box kernels aggregate exactly what they saw",
  "The unique-types kernel returns, sorted and without repetition, exactly the WKB codes of the type and dimension pairs seen among non-empty features. The box kernels return per feature (or overall) the exact minimum and maximum of the x and y ordinates seen, ignoring NaN, with nulls exactly where features were null and infinite empty ranges for features without coordinates.",
  ["inputs", "histories"], "all sequences of events over any number of features and batches",
  "Tests run a few features per kernel.",
  [S + "kernel.c"], [("type mask", S + "kernel.c: coords_geometry_types, kernel_finish_unique_geometry_types_agg"), ("box update and flush", S + "kernel.c: coords_box, feat_end_box, box_flush, box_finish")], ["GeoArrowKernelInit kernels unique_geometry_types_agg, box, box_agg"])
p("C20", "Length, validity and null count agree in every finished array",
  "In every array any writer finishes, the validity bitmap is absent only if the null count is zero, otherwise it has one bit per element, zero exactly for the null elements, and the null count equals the number of zero bits; the array length equals the number of features ended. After finishing, the writer starts the next array from an empty state.",
  ["histories"], "all interleavings of null and non-null features over any number of batches, for the WKB, WKT and native writers",
  "Tests finish one or two short arrays per writer.",
  [S + "wkb_writer.c", S + "wkt_writer.c", S + "native_writer.c"], [("lazy bitmap", S + "wkb_writer.c: feat_end_wkb, GeoArrowWKBWriterAppendValidity; wkt_writer.c: feat_end_wkt; native_writer.c: feat_end_*"), ("finish", S + "wkb_writer.c, wkt_writer.c, native_writer.c: *Finish")], ["GeoArrowWKBWriterFinish", "GeoArrowWKTWriterFinish", "GeoArrowNativeWriterFinish"])
p("C21", "Builder buffers keep size, capacity and contents consistent",
  "Reserving, appending to or replacing any buffer of a builder keeps size at most capacity, preserves every byte already appended, writes only reserved space, and makes the buffer visible in the finished array at the place the type prescribes. A finished array's length at every nesting level follows from its buffers.",
  ["inputs", "histories"], "all types, buffer indices, sizes and sequences of reserve, append and finish",
  "Tests append small buffers once.",
  [S + "builder.c", S + "geoarrow_type_inline.h"], [("buffer reserve and append", S + "builder.c: GeoArrowBuilderReserveBuffer; geoarrow_type_inline.h: GeoArrowBuilder*Append*"), ("finish", S + "builder.c: GeoArrowBuilderFinish"), ("buffer lookup", S + "geoarrow_type_inline.h: _GeoArrowArrayFindBuffer")], ["GeoArrowBuilderReserveBuffer", "GeoArrowBuilderAppendBuffer", "GeoArrowBuilderFinish"])
p("C22", "The header-only WKB parser is safe and decodes headers exactly",
  "For every byte string the C++ WKB parser ends with success or one of its error statuses, reads no byte outside the string, and on success each sequence it reports lies inside the string with the type, dimensions, byte order, count and SRID its header denotes. Success means all bytes were used; leftover bytes are reported as such.",
  ["inputs"], "all byte strings of all lengths, all type codes, counts and nesting depths",
  "Tests parse a few blobs and their truncations.",
  [S + "hpp/wkb_util.hpp"], [("remaining-bytes check", S + "hpp/wkb_util.hpp: WKBParser::CheckRemaining, Advance"), ("header decode", S + "hpp/wkb_util.hpp: WKBParser::ParseGeometry")], ["geoarrow::wkb_util::WKBParser::Parse"])
p("C23", "Array readers deliver exactly the requested elements",
  "Reading a window of a WKB, WKT or native array hands over, for each index of the window in order, exactly the bytes or element at that index after array offsets, null exactly where the bitmap says so, and stops with the first error. A request for an unsupported storage type fails without output.",
  ["inputs"], "all window positions, array offsets, offset-buffer contents and both offset widths",
  "Tests read short arrays with zero offset.",
  [S + "array_reader.c"], [("visit loops", S + "array_reader.c: GeoArrowArrayReaderVisit and helpers")], ["GeoArrowArrayReaderVisit"])
p("C24", "Error messages never overflow their buffer",
  "Setting an error message, whatever its format and arguments, writes only within the error's message buffer and leaves it terminated; a missing error object is accepted and ignored.",
  ["inputs"], "all formatted lengths, including failures of the formatter",
  "Tests set one long message.",
  [S + "util.c"], [("bounded formatting", S + "util.c: GeoArrowErrorSet")], ["GeoArrowErrorSet"])
p("C25", "Number text round-trips through printing and parsing",
  "Every finite double printed with full precision and parsed again gives the same double, and printing with a precision rounds correctly.",
  ["inputs"], "all 2^64 doubles, all precisions",
  "Tests print a dozen values.",
  [S + "double_print.c", S + "double_parse_fast_float.cc", S + "ryu/d2s.c"], [("printing", S + "double_print.c: GeoArrowPrintDouble"), ("parsing", S + "double_parse_fast_float.cc: GeoArrowFromChars")], ["GeoArrowPrintDouble", "GeoArrowFromChars"])
p("C26", "Python objects keep the Arrow memory they view alive",
  "A Python object that exposes a buffer, array or schema keeps the owning Arrow object alive for as long as it is reachable, and releases it exactly once.",
  ["histories", "schedules"], "all orders of creation, sharing and garbage collection of the Python wrappers",
  "Tests hold their objects for the duration of a test.",
  ["python/geoarrow-c/src/geoarrow/c/_lib.pyx"], [("capsules and base references", "python/geoarrow-c/src/geoarrow/c/_lib.pyx")], ["geoarrow.c"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
