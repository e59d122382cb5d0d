"""Which units and drivers decide which property."""
from units import U, COPY, GEN, SEQ, WKBV, GEOM, VISIT, WKT, WKTV, META, METAW, KERN, AVIEW, ATT, READER, BUILD, NEV, NAPP, NLIFE, SCHEMA, HPP
from replay import Driver

TRUSTED = [
    "cbmc/goto-cc 6.11.0 and its SAT back end, including its C semantics and pointer model",
    "the extraction (vp/extract.py): loops are cut at their invariant, named callees replaced by their contracts, nothing else changed; GEOARROW_USE_RYU/FAST_FLOAT off",
    "libc memcpy, memset, malloc, realloc, free, strlen, snprintf behave as the C standard says",
]
ASSUMPTIONS = [
    "objects are smaller than 2^40 bytes, so that addresses do not wrap",
    "termination of loops under an invariant is not proved (the replay has a time limit)",
    "data races are out of scope: one thread per object, as the library requires",
]


def units_of(P):
    return [U[n] for n in P["units"]]


PROPS = {
    "C01": dict(
        units=["wkb-coords", "wkb-node", "wkb-top"],
        drivers=[Driver("wkb_read.c", defs=["VP_C01"], what="whole reads of generated blobs up to ~10 kB")],
    ),
    "C02": dict(
        units=["wkb-coords", "wkb-node", "wkb-top"],
        drivers=[Driver("wkb_read.c", defs=["VP_C02"], what="whole reads of generated blobs against an independent decoder")],
        assumptions=["byte-order bytes other than 0 and 1 count as the non-native order; code bits 16 to 28 are ignored"],
    ),
    "C03": dict(units=WKBV + ["wkbw-feat", "wkbw-finish"],
                drivers=[Driver("wkb_write.c", defs=["VP_C03"], runs=40000, secs=25, maxlen=600, what="random event orders and geometries over several batches, one allocation failure")],
                assumptions=["dimensions passed to geom_start are those of the enumeration, without UNKNOWN", "coordinate views are separated or interleaved with 2 to 4 ordinates"]),
    "C04": dict(units=["wkbw-nodes", "wkbw-sequence", "wkbw-append", "wkbw-append-null", "wkbw-finish", "wkbw-put-0", "wkbw-put-1", "wkbw-put-2", "wkbw-reserve"] + SEQ[:1],
                drivers=[Driver("wkb_write.c", defs=["VP_C04"], runs=40000, secs=25, maxlen=600, what="random geometries over several batches, one allocation failure")],
                trusted=["GeoArrowGeometryNodeWriteSequence by the contract proved under C08"],
                assumptions=["nodes have dimensions XY, XYZ, XYM or XYZM"]),
    "C05": dict(units=WKT,
                drivers=[Driver("wkt_read.c", runs=12000, secs=30, maxlen=800, what="random, generated and mutated texts without terminator, deep towers, a visitor failing at any event"),
                         Driver("wkt_read.c", ff=True, runs=12000, secs=30, maxlen=800, what="the same with the fast_float number parser")],
                trusted=["strtod / fast_float::from_chars write and stop inside the text they are given"],
                assumptions=["the stack used by one level of ReadTaggedGeometry is bounded (a compiler matter); the levels are at most 256"]),
    "C06": dict(units=WKTV + ["wkbw-put-2", "wkbw-reserve"],
                drivers=[Driver("wkt_write.c", runs=20000, secs=20, maxlen=600, what="random event orders, precisions and limits over several batches, one allocation failure, numbers by ryu"),
                         Driver("wkt_write.c", ryu=False, runs=20000, secs=20, maxlen=600, what="the same with numbers by snprintf")],
                trusted=["the ryu number printer writes at most 40 bytes (replayed with guard bytes)", "snprintf prints at most 24 characters in the form %.16e"],
                assumptions=["coordinate views have 2 to 4 ordinates, separated or interleaved, and at most 2^32-1 coordinates", "fewer than 2^31 nested geometries are started without a feature in between"]),
    "C07": dict(units=["types", "types-map"],
                drivers=[Driver("types.c", runs=3000, secs=10, what="all identifiers, names and dimension pairs")],
                assumptions=["arguments of GeoArrowMakeType are below 2^15 (larger values are no enumerators)"]),
    "C08": dict(units=SEQ + COPY + ["copy-value", "num-coords", "types-map"],
                drivers=[Driver("coords.c", runs=150000, secs=25, what="copies of random views, sequences and geometries")],
                uncovered=["GeoArrowGeometryViewCopyCoordsGeneric (whole geometries into strided output)"],
                assumptions=["source and destination do not overlap", "destinations are separated or interleaved",
                             "positions are specification functions of the coordinate index (uninterpreted), with their defining equations as the only facts used; arithmetic facts about them are proved in copy-value"]),
    "C09": dict(units=AVIEW + ["attach-multipolygon-4s", "attach-polygon-3i", "attach-point-2s"], drivers=[Driver("array.c", defs=["VP_C09"], runs=60000, secs=25, maxlen=600, what="random nested arrays with offsets at every level, windows, visitors failing at any event")],
                assumptions=["offset buffers are valid Arrow: not negative, not decreasing, ending inside the child; the lengths and offsets of an array are at most 2^34", "boxes: XY only, as the library says (others: replayed)", "multipoint, multilinestring and multipolygon are proved for XY separated and XYZM interleaved, point, linestring and polygon for all layouts; what differs between layouts is GeoArrowCoordViewUpdate, under contract in all of them"]),
    "C10": dict(units=ATT, drivers=[Driver("array.c", defs=["VP_C10"], runs=80000, secs=25, maxlen=600, what="random nested arrays with the wrong number of buffers or children anywhere")],
                trusted=["GeoArrowSchemaViewInitFromType and GeoArrowSchemaViewInit (view-init) fill in geometry type, dimensions and coordinate type (C18)"],
                assumptions=["the buffer and child tables have the sizes the array states", "offset buffers hold offset + length + 1 offsets that are not negative (the format says so; sizes of buffers are not part of the C data interface)"]),
    "C23": dict(units=READER + ["view-point-2s", "view-multipolygon-2s"], drivers=[Driver("array.c", defs=["VP_C23"], runs=40000, secs=25, maxlen=600, what="WKB and WKT arrays of all storage types, slices, nulls, malformed elements, visitors failing at any event; oracle: each element read on its own")],
                trusted=["nanoarrow's ArrowArrayViewIsNull, ArrowArrayViewGetStringUnsafe and ArrowArrayViewGetBytesUnsafe (large and view storage) return the element asked for (replayed)"],
                assumptions=["offset buffers are valid Arrow", "GeoArrowWKBReaderVisit, GeoArrowWKTReaderVisit and GeoArrowArrayViewVisitNative by their contracts (C01, C02, C05, C09)"]),
    "C11": dict(units=NEV + [u for u in NLIFE if "validity" not in u] + ["build-append-1", "build-append-2", "build-append-3"],
                drivers=[Driver("native.c", defs=["VP_C11"], runs=60000, secs=25, maxlen=700, what="random event orders and the events of random geometries, all types, two batches, one failing allocation, against a plain model of the array")],
                trusted=["nanoarrow's bitmap builder (a sequence of bits)", "GeoArrowBuilderOffsetAppend and GeoArrowBuilderCoordsAppend append at the end or fail without change (C21, C08)"],
                assumptions=["a feature of which an event failed leaves its leftovers behind; what follows starts with feat_start", "fewer than 2^31 events per feature", "coordinate views carry as many ordinates as the dimensions announced by the last geom_start"]),
    "C12": dict(units=NAPP + [u for u in NLIFE if "validity" in u] + ["num-coords", "build-append-1", "build-append-2", "build-append-3"],
                drivers=[Driver("native.c", defs=["VP_C12"], runs=60000, secs=25, maxlen=700, what="random geometries, inconsistent node lists, sizes past 2^31, nulls and events in between, against a plain model of the array")],
                trusted=["nanoarrow's bitmap builder (a sequence of bits)", "GeoArrowBuilderOffsetAppend, CoordsAppend and CoordsReserve append at the end or fail without change (C21)"],
                assumptions=["the coordinates of a sequence node are there to be read", "between appends the offsets of every level account for their child (proved for events under C11, for appends here)"],
                uncovered=["GeoArrowGeometryViewCopyCoordsGeneric beyond one sequence (whole geometries into strided output)"]),
    "C20": dict(units=[u for u in NEV if "-end-" in u] + NLIFE + ["native-null", "native-append-0", "native-append-1", "native-append-2", "native-append-3", "wkbw-feat", "wkbw-append", "wkbw-append-null", "wkbw-finish", "wktw-feat", "wktw-finish"],
                drivers=[Driver("validity.c", runs=40000, secs=20, maxlen=600, what="null and other features in any order, by events and by appends, up to four batches, all three writers")],
                trusted=["nanoarrow's bitmap builder (a sequence of bits), ArrowArrayFinishBuildingDefault, ArrowArrayMove"],
                assumptions=["every feature of the batch ended successfully"]),
    "C13": dict(units=GEOM, drivers=[Driver("geometry.c", defs=["VP_C13"], runs=40000, secs=25, maxlen=600, what="random event orders, allocation failures included")],
                trusted=["ArrowBufferReserve and ArrowBufferAppend in GeoArrowGeometryReallocCoords by their contract (proved for the WKB writer under C03: wkbw-put-*, wkbw-reserve)"],
                assumptions=["the storage of sequences is smaller than 2^36 bytes (their sizes are 32-bit)", "sequences start in storage order (geom-start: each starts at the current end, and coordinates are only appended)",
                             "a cursor one element before the first node compares less than it", "the dimensions and strides of a sequence node are those geom_start gives it (2 to 4 interleaved doubles)"],
                uncovered=["GeoArrowGeometryInit, GeoArrowGeometryReset, GeoArrowGeometryInitVisitor"]),
    "C14": dict(units=VISIT, drivers=[Driver("geometry.c", defs=["VP_C14"], runs=40000, secs=25, maxlen=600, what="visits of random node trees, malformed ones included")],
                trusted=["GeoArrowGeometryNodeWriteSequence by the contract proved under C08 (seq-*)"],
                assumptions=["nodes have dimensions XY, XYZ, XYM or XYZM", "nesting as deep as the stack allows (the recursion is proved by its own contract)"]),
    "C15": dict(units=["geom-deep", "geom-shallow", "geom-resize"] + SEQ[:1], drivers=[Driver("geometry.c", defs=["VP_C15"], runs=40000, secs=25, maxlen=600, what="copies of random geometries, swapped byte order included")],
                trusted=["ArrowBufferResize of the coordinates: the requested size or ENOMEM", "GeoArrowGeometryNodeWriteSequence by the contract proved under C08 (seq-*)"],
                assumptions=["source and destination are different geometries", "nodes have dimensions XY, XYZ, XYM or XYZM",
                             "the bytes a sequence needs are a specification function of its node (uninterpreted); seq-* proves that this many are written"]),
    "C16": dict(units=META, drivers=[Driver("metadata.c", defs=["VP_C16"], runs=40000, secs=25, maxlen=400, what="objects with known members, cut, changed and nested ones")],
                assumptions=["FindList and FindObject call each other: each is proved against the other's contract, with the depth as the measure (at most 128)",
                             "in ParseJSONMetadata, what strncmp sees of a key or value is up to 24 unknown bytes fixed when it was found"],
                trusted=["strlen and strncmp by CBMC's own models"]),
    "C17": dict(units=METAW, drivers=[Driver("metadata.c", defs=["VP_C17"], runs=60000, secs=25, maxlen=400, what="all types, random texts, every room, parsed back, on schemas")],
                trusted=["nanoarrow's metadata builder: ArrowMetadataBuilderInit/Set, ArrowSchemaSetMetadata (copy the text or fail with ENOMEM)"],
                assumptions=["a reference system that begins with { or \" is valid JSON already (documented: it is then copied as it is)", "the room given is not negative",
                             "the number of escapes is a specification function of the text (uninterpreted), with its step equation as the only fact used"],
                uncovered=["GeoArrowSchemaSetMetadataFrom, GeoArrowMetadataSetLonLat", "that parsing gives back what was written is a composition of both contracts, decided by replay only"]),
    "C18": dict(units=SCHEMA, drivers=[Driver("schema.c", runs=400000, secs=25, maxlen=200, what="any type identifier built and viewed, allocation failures, near-valid schemas and extension names against an independent recogniser")],
                trusted=["nanoarrow's schema builders (set what they are asked to set, or fail) and metadata builder", "nanoarrow's ArrowSchemaViewInit (accepts or refuses a storage; the fixed size is the one the format says; the extension's name and metadata are those of the schema's metadata)",
                         "strlen is the distance to the terminator"],
                assumptions=["schemas are Arrow schemas: formats, the child table and the children are not NULL, texts are terminated", "names and formats are shorter than 2^40 characters"],
                uncovered=["the error messages", "the metadata bytes nanoarrow's builder lays out (replayed)"]),
    "C19": dict(units=KERN, drivers=[Driver("kernel.c", runs=40000, secs=25, maxlen=800, what="random WKB features with nulls and slices in up to 3 batches")],
                trusted=["nanoarrow's array assembly and bitmap builder, by contract", "GeoArrowArrayReaderVisit by its contract (one call per element, first error returned)"],
                assumptions=["geometry types 1 to 7 and dimensions unknown to XYZM are reported (the readers report no others)", "coordinate views are separated or interleaved with 2 to 4 ordinates",
                             "fewer than 2^37 features"],
                uncovered=["start, init and release of kernels, array_box and schema_box (replayed)", "that the bounds are attained follows from the step clauses (each step keeps the bound or takes the value) by induction on paper"]),
    "C21": dict(units=BUILD, drivers=[Driver("builder.c", runs=60000, secs=25, maxlen=600, what="all types but views, buffers filled in pieces in any order, memory of the caller's, failing allocations, two arrays in a row")],
                trusted=["nanoarrow's ArrowBufferReserve (at least the capacity asked for, contents kept; on failure the buffer is emptied and its old memory, unless it was the caller's, still there), ArrowArrayInitFromSchema (the tree of arrays of the type), ArrowArrayBuffer, ArrowArrayFinishBuildingDefault, ArrowArrayMove",
                         "GeoArrowCoordViewCopy by the contract proved under C08", "GeoArrowSchemaInit, GeoArrowSchemaViewInit(FromType) and GeoArrowArrayViewInitFromType by contract (C10, C18)"],
                assumptions=["coordinate buffers are filled either by buffer calls or by coordinate calls between two finishes, not by both", "offset buffers hold whole offsets",
                             "a builder whose GeoArrowBuilderFinish failed is only reset"],
                uncovered=["coordinates of XYZM boxes (8 ordinates)"]),
    "C22": dict(units=HPP, drivers=[Driver("wkb_parser.cc", runs=250000, secs=40, maxlen=600, what="random and mutated WKB of all types, flags and nesting, reused parsers, sequences visited, sizes past 2^32, chains of up to 150000 collections")],
                trusted=["the translation of the three classes to C (vp/hpp.py: members, methods, casts, constants; statements as they are)", "LoadIdentity/LoadSwapped read the 4 bytes at the pointer in little and big endian order (array_util.hpp; replayed)",
                         "std::vector: size, push_back and operator[] as the C++ standard says"],
                assumptions=["blobs of fewer than 2^40 bytes", "collections nested more than 255 levels deep are refused with TOO_MANY_LEVELS (the limit of the C reader)", "the low 24 bits of the type word are the type code; the bits between are ignored, as documented by kEWKBMask"],
                uncovered=["iteration over coordinates (VisitVertices, VisitEdges; replayed)", "WKBArray and its iterators", "one geometry has fewer than 2^32 sequences"]),
    "C24": dict(units=["errset"], drivers=[Driver("errset.c", runs=20000, secs=15, what="messages of 0 to 3000 characters")],
                trusted=["vsnprintf writes at most the n bytes it is given, terminator included, returns the needed length or a negative number, and on failure leaves the last byte alone"]),
}

NA = {
    "C25": "The two halves are ryu's table-driven 128-bit arithmetic and fast_float's C++ templates with 128-bit products and big integers; correct rounding over all doubles is a floating-point theorem (Ulf Adams's and Lemire's proofs), and no verifier here takes C++ or decides it: CBMC's bit-blasting of 128-bit multiplications by table entries does not finish even for one exponent. The fallback printer calls snprintf, whose specification is outside the code.",
    "C26": "The objects live in Cython/CPython code generated at build time; their lifetime rules are CPython reference-count protocol, for which no deductive verifier is installed. CBMC sees neither Cython nor the interpreter.",
}


def note(i):
    P = PROPS[i]
    n = ("Every obligation of %s discharged for all inputs (no bound). " % ", ".join(sorted({f for u in units_of(P) for f in u.fns})))
    if P.get("uncovered"):
        n += "Not under contract, only replayed (bounded): " + "; ".join(P["uncovered"]) + ". "
    n += "Assumes " + "; ".join(ASSUMPTIONS + P.get("assumptions", [])) + "."
    return n
