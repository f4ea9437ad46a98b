"""The properties in words; tools/generate.py writes properties.jsonl and
MANIFEST.json from here.  P(id, title, statement, over, text, why, files,
mechanisms [(name, where)], observe)"""
PROPERTIES = []


def P(id, title, statement, over, text, why, files, mech, observe, note, technique=None,
      level="exploration"):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                           files=files, mech=mech, observe=observe, note=note,
                           technique=technique, level=level))


S = "src/geoarrow/"

P("C01", "Any bytes can be given to the WKB reader",
  "For every byte sequence, reading it as well-known binary touches only those bytes, terminates "
  "and leaks nothing. A sequence that is well-formed WKB (ISO codes or EWKB dimension and SRID "
  "flags, either byte order at every level, up to 250 levels of nesting) is accepted and gives "
  "exactly the geometry it encodes; a truncated one, one with an unknown geometry type or "
  "unsupported nesting is rejected with an error code and a message. Whatever one value did, the "
  "reader handles the next one as a fresh reader would.",
  ["inputs", "histories"], "all byte strings, and sequences of them given to one reader",
  "The tests feed the reader a few dozen fixed blobs; truncation points, counts near 2^32, unaligned "
  "offsets and reuse after a failure are not sampled.",
  [S + "wkb_reader.c", S + "geometry.c"],
  [("remaining-size checks before every read", S + "wkb_reader.c"),
   ("level limit of 255", S + "wkb_reader.c")],
  ["GeoArrowWKBReaderRead", "GeoArrowWKBReaderVisit"],
  "Mutated and hand-crafted blobs in exactly sized buffers under ASan/UBSan against an independent "
  "decoder; coverage-guided fuzzing in the thorough tier. Does not establish absence.",
  "structure-aware mutation fuzzing against a reference WKB decoder under ASan/UBSan")

P("C02", "WKB decodes to the geometry it encodes",
  "Reading a well-formed WKB value, alone or from any slice of a binary, large binary or binary "
  "view column, delivers exactly the encoded geometry: types, dimensions, nesting, ring and member "
  "structure, emptiness and every ordinate bit for bit, and null rows as nulls. This holds for ISO "
  "and EWKB flavours, SRIDs, and any mix of byte orders, and the geometry view and the visitor "
  "callbacks agree.",
  ["inputs"], "all geometries x encodings x column slices",
  "The tests compare a fixed set of example geometries in one byte order each; the product of type, "
  "dimension, nesting, flavour, byte order and slicing is not sampled.",
  [S + "wkb_reader.c", S + "array_view.c", S + "array_reader.c", S + "geometry.c"],
  [("per-geometry byte order and flag decoding", S + "wkb_reader.c"),
   ("offset-aware element access", S + "array_reader.c")],
  ["GeoArrowWKBReaderRead", "GeoArrowArrayReaderVisit"],
  "Generated geometries encoded by an independent encoder; compared structurally and bitwise.",
  "property-based testing against a reference encoder (round trip)")

P("C03", "Any text can be given to the WKT reader",
  "For every byte sequence, reading it as well-known text touches only those bytes, terminates "
  "without exhausting the stack and leaks nothing. Well-formed text (upper-case tags, optional Z, M "
  "or ZM, EMPTY anywhere a body may stand, either multipoint style, up to 120 nested collections) is "
  "accepted with exactly the geometry it denotes, and malformed text is rejected with an error code "
  "and a message. Whatever one value did, the reader handles the next one as a fresh reader would.",
  ["inputs", "histories"], "all byte strings, and sequences of them given to one reader",
  "The tests cover a few dozen valid strings and a handful of errors; the grammar's products and "
  "the neighbourhood of valid texts are not sampled.",
  [S + "wkt_reader.c", S + "double_parse_fast_float.cc", S + "double_parse_std.c"],
  [("recursive descent with size checks", S + "wkt_reader.c")],
  ["GeoArrowWKTReaderVisit"],
  "Grammar-derived texts with edits against an independent recogniser that says accept, reject or "
  "unspecified; both number-parser configurations.",
  "grammar-based mutation fuzzing against a reference recogniser under ASan/UBSan")

P("C04", "WKT decodes to the geometry it denotes",
  "Reading a well-formed WKT value, alone or from any slice of a string, large string or string view "
  "column, delivers exactly the geometry it denotes: type, dimensions, nesting, ring and member "
  "structure, emptiness, null rows, and every ordinate as the correctly rounded double of its "
  "decimal text, for any spelling of the numbers, any whitespace and either multipoint style.",
  ["inputs"], "all geometries x spellings x column slices",
  "Tests use a few integers per geometry type; long sequences, number spellings and sliced columns "
  "are not sampled.",
  [S + "wkt_reader.c", S + "array_reader.c", S + "array_view.c"],
  [("coordinate cache flushed every 64 coordinates", S + "wkt_reader.c")],
  ["GeoArrowWKTReaderVisit", "GeoArrowArrayReaderVisit"],
  "Generated geometries spelled by an independent writer; bitwise comparison.",
  "property-based testing against a reference WKT writer (round trip)")

P("C05", "WKT writing gives valid text of the same geometry",
  "For every sequence of features and nulls, however their coordinates are chunked and laid out, the "
  "WKT writer produces a valid string column with one item per feature, null where the feature is "
  "null, whose text is well-formed WKT with the same structure and with every ordinate printed at the "
  "requested precision in the requested multipoint style. The library's own reader reads every such "
  "text back to that same geometry, and one writer can be reused for further batches without any "
  "trace of earlier ones.",
  ["inputs", "histories"], "all feature sequences, chunkings, options and batch counts",
  "Tests write a few geometries once with default options; batches, chunk boundaries and option "
  "combinations are not sampled.",
  [S + "wkt_writer.c", S + "double_print.c"],
  [("per-level counters choose separators", S + "wkt_writer.c")],
  ["GeoArrowWKTWriterFinish"],
  "Output tokenised and compared with the model; numbers judged against the exact value.",
  "property-based testing with a token-level validity oracle and read-back")

P("C06", "Formatted WKT respects precision and size limits",
  "Formatting a column of any encoding as text with a precision of 0 to 16 and an element size limit "
  "gives, for every row, exactly the first so many bytes of the unlimited text (all of it when it is "
  "short enough), null for null rows, and one item per row in order. Every printed ordinate is within "
  "half a unit of the last requested decimal place of its value, and a limit never affects other "
  "rows, wherever the nulls are.",
  ["inputs", "configurations"], "all columns x precision x limit",
  "Tests use one limit on one linestring; limits at token boundaries and with nulls are not sampled.",
  [S + "kernel.c", S + "wkt_writer.c"],
  [("early stop and truncation at the end of a feature", S + "wkt_writer.c"),
   ("feature-wise visiting", S + "kernel.c")],
  ["format_wkt kernel", "GeoArrowWKTWriter"],
  "Metamorphic: limited output must be a prefix of unlimited output, which is judged by the model.",
  "metamorphic property-based testing (prefix relation) plus number oracle")

P("C07", "Numbers are parsed and printed correctly",
  "Parsing a number accepts every decimal number and every spelling of nan and inf, gives the "
  "correctly rounded double, never looks outside the given characters, and rejects everything else "
  "without touching the output, including empty text, trailing characters, hexadecimal and surrounding whitespace. Printing any "
  "double at precision 0 to 16 stays within forty bytes and gives a plain decimal with no superfluous "
  "digits or zeros that is within half a unit of the last place, exact to read back for magnitudes "
  "above 1e17 (where an exponent is used) and, at precision 16, for magnitudes of at least one.",
  ["inputs", "configurations"], "all texts, all doubles, all precisions, both printers and parsers",
  "Tests parse and print a dozen numbers.",
  [S + "double_parse_fast_float.cc", S + "double_parse_std.c", S + "double_print.c", S + "ryu/d2s.c"],
  [("whole-token check after parsing", S + "double_parse_fast_float.cc"),
   ("exponent form above 1e17", S + "double_print.c")],
  ["GeoArrowFromChars", "GeoArrowPrintDouble"],
  "strtod/strtold of glibc is the trusted numeric oracle.",
  "property-based differential testing against correctly rounded conversion")

P("C08", "WKB writing gives the same geometry however it is fed",
  "For every sequence of features and nulls, the WKB writer produces a valid binary column with one "
  "item per feature, null where the feature is null, each a well-formed ISO WKB value of exactly that "
  "geometry with every ordinate bit for bit and empty points as all-NaN points. The result does not "
  "depend on whether features arrive through visitor callbacks in any chunking or as geometry values "
  "in any memory layout or byte order, and one writer can be reused for further batches without any "
  "trace of earlier ones.",
  ["inputs", "histories"], "all feature sequences, input paths, layouts and batch counts",
  "Tests write a few native-order geometries once through each path.",
  [S + "wkb_writer.c", S + "geometry.c", "src/geoarrow/geoarrow_type_inline.h"],
  [("size back-patching", S + "wkb_writer.c"), ("node sequence writer", S + "geoarrow_type_inline.h")],
  ["GeoArrowWKBWriterFinish"],
  "Output decoded by an independent decoder.",
  "property-based testing against a reference decoder, differential over input paths")

P("C09", "Native writing stores exactly the features that fit",
  "For every sequence of features and nulls, writing to any of the point to multipolygon types, in any "
  "dimensions and either coordinate layout, gives an Arrow column from whose buffers exactly those "
  "features can be read, null rows as null, with dimensions the target lacks dropped, those the source "
  "lacks filled with NaN, and single geometries promoted to multis where the target is a multi. A feature the type "
  "cannot hold is rejected with an error code and a message, and a rejected append leaves the batch as it "
  "was. The result does not depend on the chunking, layout or byte order of the input, nor on "
  "earlier batches.",
  ["inputs", "histories"], "all feature sequences x target types x input paths x batches",
  "The tests write fixed features into a few of the 48 types, one batch each; conversions, nulls after "
  "features and reuse are not sampled in combination.",
  [S + "native_writer.c", S + "array_writer.c", S + "geometry.c"],
  [("per-type visitor state machines", S + "native_writer.c"), ("node-wise append", S + "native_writer.c")],
  ["GeoArrowNativeWriterFinish", "GeoArrowArrayWriterFinish"],
  "Output is read from the raw buffers by an independent reader of the memory layout.",
  "property-based testing against a reference reader of the memory layout, over batch histories")

P("C10", "Native reading delivers exactly the stored features",
  "Reading any range of a valid native or box array through the visitor interface delivers exactly the "
  "features the buffers encode, in order, null rows as null: for every type, dimension and coordinate "
  "layout, with any array offset at any nesting level, any offsets buffer origin, with or without a "
  "validity bitmap, and without touching memory outside the referenced buffers. One reader can be given "
  "further arrays.",
  ["inputs", "histories"], "all native arrays x ranges x sequences of arrays",
  "The tests read small unsliced arrays; offsets at inner levels and partial ranges are not sampled.",
  [S + "array_view.c", S + "array_reader.c", S + "geoarrow_type_inline.h"],
  [("offsets at every nesting level", S + "array_view.c"), ("reader shifts by logical offset", S + "array_reader.c")],
  ["GeoArrowArrayViewVisitNative", "GeoArrowArrayReaderVisit"],
  "Arrays are laid out by an independent builder in exactly sized buffers.",
  "property-based testing against a reference array builder under ASan")

P("C11", "Conversion between encodings keeps geometry and metadata",
  "Converting a column of any encoding to WKB, WKT or a native type, by the as_geoarrow kernel or by a "
  "reader driving a writer, gives for every row exactly the source geometry in the target encoding, null "
  "for null rows, batch after batch; where the target type fixes geometry type or dimensions, rows that "
  "cannot be represented are rejected with an error. The output schema has the requested type and carries "
  "the CRS and edges of the input.",
  ["inputs", "histories"], "all source encodings x target encodings x columns x batches",
  "The tests convert a handful of features between few of the encoding pairs.",
  [S + "kernel.c", S + "array_reader.c", S + "array_writer.c", S + "native_writer.c", S + "wkb_writer.c",
   S + "wkt_writer.c"],
  [("reader drives writer visitor", S + "kernel.c"), ("metadata propagation", S + "kernel.c")],
  ["GeoArrowKernelInit", "GeoArrowArrayReaderVisit"],
  "Source columns and result checks come from independent encoders and decoders.",
  "property-based testing of conversion against reference codecs (round trip across encodings)")

P("C12", "Coordinate helpers move the right ordinates and no others",
  "Copying coordinates between views of any dimensions, layouts, strides, byte orders and ranges moves "
  "each ordinate to the matching dimension, fills dimensions the source lacks with NaN, and neither reads "
  "nor writes any other memory. Coordinate counts, whole-geometry copies and serialized coordinate "
  "sequences agree with the geometry's coordinates in order, and nodes set over a buffer read back "
  "exactly its coordinates.",
  ["inputs"], "all dimension pairs x layouts x strides x ranges x geometries",
  "Tests copy a few coordinates between a few dimension pairs in native byte order.",
  [S + "geoarrow_type_inline.h", S + "geometry.c"],
  [("dimension map", S + "geoarrow_type_inline.h"), ("stride-aware loads with byte swap", S + "geometry.c")],
  ["GeoArrowCoordViewCopy", "GeoArrowGeometryViewCopyCoordsGeneric", "GeoArrowGeometryNodeWriteSequence"],
  "Targets are exactly sized and filled with markers; every untouched slot is checked.",
  "property-based testing against a reference dimension mapping under ASan")

P("C14", "Geometry objects keep their value through build, copy and edit",
  "Whatever sequence of visits, deep copies, shallow copies, node appends and truncations is applied to "
  "geometry objects, each one holds exactly the geometry it was last given, independent of its source "
  "after a deep copy, and visiting it delivers that geometry. Visiting a node list that is shorter or "
  "longer than its root says is an error with a message and reads nothing outside the list.",
  ["histories", "inputs"], "all operation histories over several objects, all geometries",
  "Tests copy one geometry once in native byte order.",
  [S + "geometry.c", S + "geoarrow_type_inline.h"],
  [("recursive visit bounded by node count", S + "geometry.c"),
   ("capacity and coordinate ownership", S + "geometry.c")],
  ["GeoArrowGeometryDeepCopy", "GeoArrowGeometryShallowCopy", "GeoArrowGeometryViewVisit"],
  "Stateful: a model of every object is compared after every step.",
  "stateful model-based testing under ASan with leak accounting")

P("C15", "Extension metadata survives reading and writing",
  "For any bytes, reading extension metadata stays inside them, terminates and either fails with a "
  "message and an unchanged output or gives the CRS, CRS type and edges of the JSON object; well-formed metadata is always "
  "accepted, whatever other members it has, and unknown edges or CRS types are handled as documented. "
  "Writing any CRS string, CRS type and edges gives valid JSON that reads back to the same values, "
  "independent of how it is spelled, and unescaping respects the size of the given buffer. "
  "Setting a schema's metadata or name keeps its other keys.",
  ["inputs"], "all byte strings; all CRS values; all JSON spellings",
  "Tests parse some twenty fixed strings.",
  [S + "metadata.c"],
  [("hand-written JSON scanner", S + "metadata.c"), ("escape and unescape of the CRS", S + "metadata.c")],
  ["GeoArrowMetadataViewInit", "GeoArrowMetadataSerialize", "GeoArrowUnescapeCrs", "GeoArrowSchemaSetMetadata"],
  "Judged by an independent strict JSON parser.",
  "grammar-based fuzzing against a reference JSON parser plus round trip")

P("C16", "Types and schemas correspond one to one",
  "Each of the 58 types has one schema, with the storage, child names and extension name of the GeoArrow "
  "specification, and reading that schema gives the type back with its geometry type, dimensions and "
  "coordinate layout. A schema whose storage or extension name differs from every such schema is "
  "rejected with a message, whatever the difference, and ids that are no type give an error; either leaves a view as "
  "it was. The "
  "extension metadata is found among any other keys.",
  ["inputs"], "all types, all edits of schemas",
  "Tests go through valid schemas and a dozen invalid ones.",
  [S + "schema.c", S + "schema_view.c", S + "geoarrow_type_inline.h"],
  [("recursive storage matching", S + "schema_view.c"), ("type id arithmetic", S + "geoarrow_type_inline.h")],
  ["GeoArrowSchemaViewInit", "GeoArrowSchemaInit", "GeoArrowMakeType"],
  "Mutated schemas judged by an independent statement of the rules (some rules unspecified: dictionaries "
  "inside nested storage, list size with leading zero).",
  "mutation-based property testing against a reference classifier")

P("C17", "Bounding boxes are the exact extent of the geometry",
  "For a column of any encoding, in any batches, the box of each row is the smallest and largest of its x "
  "and y ordinates, ignoring NaN, an empty extent (min greater than max, infinite) for rows without any, "
  "and null for null rows; the aggregate is the extent of all rows of all batches. The result "
  "is a valid box array carrying the CRS and edges of the input, and edges that are not planar are "
  "refused.",
  ["inputs", "histories"], "all columns x encodings x batches",
  "Tests compute the boxes of a few points.",
  [S + "kernel.c"],
  [("running min/max per feature", S + "kernel.c"), ("box builder in finish", S + "kernel.c")],
  ["box kernel", "box_agg kernel"],
  "Ordinates compared by value with the model's minima and maxima.",
  "property-based testing against a reference extent, over batch histories")

P("C18", "Unique geometry types are exactly those that occur",
  "For a column of any encoding, in any batches, the unique_geometry_types_agg kernel gives, in ascending "
  "order and once each, the ISO codes of the (type, dimensions) pairs of the top-level geometries that "
  "have coordinates, and no others.",
  ["inputs", "histories"], "all columns x encodings x batches",
  "Tests use one small column.",
  [S + "kernel.c"],
  [("bitmap of seen types", S + "kernel.c")],
  ["unique_geometry_types_agg kernel"],
  "Compared with the set the model says.",
  "property-based testing against a reference set, over batch histories")

P("C19", "Arrays built by buffers are exactly those buffers",
  "A builder given its buffers by ownership transfer, by appended pieces, or as offsets and coordinates in any "
  "order and from any source dimensions, finishes an array that holds exactly that content, batch after batch, "
  "for every type with a builder; inconsistent sizes are refused at finish. Every owned buffer or wrapped C++ "
  "object is given back exactly once: when it is replaced, when its array is released, or when the builder is, "
  "and never while an array still uses it; a refused one stays with the caller.",
  ["inputs", "histories"], "all columns x ways and orders of appending x batches x lifetimes",
  "Tests build one small array of each kind once.",
  [S + "builder.c", S + "geoarrow_type_inline.h", S + "hpp/array_writer.hpp"],
  [("owned buffers with a custom deallocator", S + "builder.c"),
   ("lengths inferred from buffer sizes at finish", S + "builder.c"),
   ("inline append and coordinate mapping", S + "geoarrow_type_inline.h")],
  ["GeoArrowBuilderFinish", "GeoArrowBuilderSetOwnedBuffer", "GeoArrowBuilderCoordsAppend", "geoarrow::ArrayBuilder"],
  "Histories of builder calls; arrays are decoded by the harness, every hand-over is counted.",
  "stateful property-based testing with ownership accounting under ASan")

P("C22", "C++ array views show exactly the rows of the array",
  "For any native array of any slicing at any level, the C++ array classes give for each row the null flag, "
  "parts, coordinates, vertices and edges the array holds, and slices of slices, iterators (with their "
  "arithmetic, comparisons and postfix forms), indexing and dimension iterators agree with each other. "
  "Coordinate sequences over unaligned or byte-swapped memory of any stride give the same values, and "
  "converting to other dimensions keeps the common ones and fills the others with NaN.",
  ["inputs"], "all arrays x slices x access paths x target dimensions",
  "Tests look at hand-made arrays of one or two rows without offsets in the children.",
  [S + "hpp/array_util.hpp", S + "hpp/geometry_type_traits.hpp", S + "hpp/internal.hpp"],
  [("offset arithmetic of lists of sequences", S + "hpp/array_util.hpp"),
   ("strided and unaligned iterators", S + "hpp/internal.hpp")],
  ["geoarrow::array_util::*Array", "CoordSequence", "UnalignedCoordSequence"],
  "Compared with the generated features along every access path.",
  "property-based testing of access-path agreement against a model")

P("C25", "The C++ WKB parser accepts exactly well-formed values",
  "For every byte sequence, the C++ parser reads only those bytes, terminates without exhausting the stack, and "
  "reports OK for well-formed WKB and the matching status otherwise (too few bytes, bad endianness, unknown or "
  "unsupported type code, trailing bytes, too deep), whatever it parsed before and whatever geometry object it is "
  "given. On success the parts, coordinates, vertices and bounds are those of the geometry encoded. Arrays of "
  "WKB give each row's geometry and nulls, and malformed rows the same status.",
  ["inputs", "histories"], "all byte strings; sequences of them with one parser and geometry",
  "Tests parse a few dozen fixed values and truncate some.",
  [S + "hpp/wkb_util.hpp"],
  [("cursor with remaining-size checks", S + "hpp/wkb_util.hpp"),
   ("reused part and sequence vectors", S + "hpp/wkb_util.hpp")],
  ["geoarrow::wkb_util::WKBParser", "WKBGeometry", "WKBBlob"],
  "Judged by the harness's own decoder, in exactly sized buffers under ASan/UBSan.",
  "structure-aware mutation fuzzing against a reference WKB decoder")

P("C26", "C++ types, readers and writers agree with the C ones",
  "A GeometryDataType keeps type, CRS, CRS type and edges through copies, moves, assignments and With...() "
  "changes independently of every other one, and its schema, extension metadata and text agree with the C API. "
  "A C++ array reader gives the features of each array it is set to, with or without ownership, and releases what "
  "it owns exactly once; a C++ writer given the same geometries and options yields what the C writer does. "
  "Misuse throws with the C error's code and message and leaks nothing.",
  ["inputs", "histories"], "all histories of operations on several objects",
  "Tests call each method once.",
  [S + "hpp/geometry_data_type.hpp", S + "hpp/array_reader.hpp", S + "hpp/array_writer.hpp", S + "array_writer.c"],
  [("value semantics of GeometryDataType", S + "hpp/geometry_data_type.hpp"),
   ("ownership in readers and writers", S + "hpp/array_reader.hpp")],
  ["geoarrow::GeometryDataType", "geoarrow::ArrayReader", "geoarrow::ArrayWriter"],
  "Stateful: a plain model is compared after every step.",
  "stateful model-based and differential testing under ASan with leak accounting")

P("C20", "Running out of memory is reported and leaves nothing behind",
  "Whichever allocation of an operation fails (alone or with all later ones), the call returns a non-zero code or "
  "does without it and gives the same result; it never crashes. A failed call leaves its output schema or array "
  "with a NULL release callback, and after resetting the objects involved nothing stays allocated. Readers, "
  "builders and geometry objects work again once memory is back, and a geometry is not changed by a copy that fails, buffers handed over are given back exactly once, and a later "
  "run gives what it gave before.",
  ["fault_sequences", "inputs"], "every allocation of every operation on random inputs",
  "No test makes an allocation fail, so no error path behind one is ever run.",
  [S + "schema.c", S + "metadata.c", S + "builder.c", S + "kernel.c", S + "geometry.c", S + "wkt_writer.c",
   S + "wkb_writer.c", S + "native_writer.c", S + "array_reader.c", S + "array_writer.c", "src/vendor/nanoarrow/nanoarrow.c"],
  [("release on failure of partly built schemas and arrays", S + "schema.c"),
   ("cleanup of private data on failed init", S + "builder.c")],
  ["GeoArrowSchemaInit*", "GeoArrowKernelInit", "GeoArrowBuilder*", "GeoArrow*Writer*", "GeoArrow*Reader*", "GeoArrowGeometry*"],
  "Allocations of the C sources are counted and failed; operator new is not.",
  "fault injection into generated operations with leak accounting and re-run comparison")

PY = "python/geoarrow-c/src/geoarrow/c/"
P("C23", "Python buffers show the array's memory and live as long as used",
  "An array built from Python buffers holds exactly the values given, keeps every source alive and pinned until the "
  "array is released (on any thread, with or without the GIL) and lets go of it then. For any array, whole or "
  "sliced at any level, the buffers of an array view are read-only, reach as far as the elements of the array, hold "
  "its offsets and ordinates, and stay valid after every other object is gone. Objects in the wrong state or of the "
  "wrong kind raise a Python exception and nothing crashes or leaks.",
  ["inputs", "histories"], "all arrays x exporters of buffers x orders of deletion",
  "Tests view a few whole arrays and never delete, release elsewhere, slice or misuse.",
  [PY + "_lib.pyx", PY + "geoarrow_python/geoarrow_python.h", S + "array_view.c", S + "builder.c"],
  [("references held by array buffers", PY + "geoarrow_python/geoarrow_python.h"),
   ("lengths and bases of viewed buffers", PY + "_lib.pyx")],
  ["CBuilder", "CArrayView", "CArrayViewBuffer", "ArrayHolder", "SchemaHolder"],
  "The extension is rebuilt with ASan/UBSan; blocks left allocated are counted.",
  "stateful property-based testing under ASan against a model of features")

P("C27", "Kernels behave the same over every history of calls",
  "For every kernel and every sequence of start, push_batch, finish and release calls, with any batches, options and "
  "errors, each batch gives the output a model expects for it alone and an aggregate's result is that of the "
  "concatenated batches, however split. A call that fails leaves outputs it was given untouched, kernels reusable "
  "or releasable, and everything released exactly once. Scalar functions made from kernels give the same as the "
  "kernel called directly, across instances and executions.",
  ["histories", "inputs"], "all call sequences on all kernels and scalar functions",
  "Tests call each kernel once in the intended order.",
  [S + "kernel.c", S + "scalar_udf.c"],
  [("private state of visitor kernels", S + "kernel.c"),
   ("factory, instance and kernel life times", S + "scalar_udf.c")],
  ["GeoArrowKernelInit", "GeoArrowKernel.start/push_batch/finish/release", "GeoArrowScalarUdfFactoryInit"],
  "Histories run under ASan with leak accounting.",
  "stateful model-based testing of call histories")

P("C30", "Python kernels and types agree with an independent Python model",
  "For any column of geometries of any type and encoding, split in any batches and sliced, the kernels called from "
  "Python give the text, encoding, types, and bounds that a model written in Python computes, and aggregates give "
  "the same however split. A type object says the same as its parts, survives a trip through a schema, and each "
  "with_...() changes only what it names. Errors raise Python exceptions naming the code and leave objects usable.",
  ["inputs", "histories"], "all columns x batches x kernels; all types x changes",
  "Tests call each kernel on one small array and make a few types.",
  [PY + "_lib.pyx", PY + "lib.py", S + "kernel.c", S + "hpp/geometry_data_type.hpp"],
  [("marshalling of kernels and options", PY + "_lib.pyx"),
   ("type objects over GeometryDataType", PY + "_lib.pyx")],
  ["CKernel", "CGeometryDataType", "GeometryType", "GeoArrowCException"],
  "Arrays come and go through the C data interface with pyarrow.",
  "property-based differential testing against a Python model")

P("C21", "Threads with objects of their own do not disturb each other",
  "Operations of any part that run in several threads at once, each on its own readers, writers, kernels, builders, "
  "geometry objects and types, give each thread exactly what it gets when it runs alone, without a data race. "
  "The same holds if what they only read (arrays, schemas, geometry and array views, C++ types) are the same constant "
  "objects for all of them.",
  ["schedules", "inputs"], "all sets of operations x inputs x interleavings",
  "Tests use one thread; hidden static state would go unnoticed.",
  [S + "kernel.c", S + "wkt_reader.c", S + "wkt_writer.c", S + "array_view.c", S + "geometry.c", S + "metadata.c",
   S + "hpp/geometry_data_type.hpp", S + "hpp/wkb_util.hpp"],
  [("file-level tables that must stay constant", S + "kernel.c"), ("readers over const views", S + "array_view.c")],
  ["GeoArrowGeometryVisit", "GeoArrowArrayViewVisitNative", "GeoArrowKernelInit", "GeometryDataType"],
  "Judged by ThreadSanitizer and by the result of the same operation run alone.",
  "generated operations run concurrently under ThreadSanitizer against their sequential results")

P("C24", "A visitor that returns an error stops the visit at once",
  "Whatever is visited (WKB, WKT, native, box and geometry objects, any type) and whichever call of the visitor fails "
  "with whatever non-zero code, the visit returns that code, makes no further call, and keeps the message the visitor "
  "left. The calls before are those of the full visit, and the reader afterwards visits the same and other input as if "
  "new. A visitor without callbacks or without an error object can be used everywhere.",
  ["inputs", "fault_sequences"], "all inputs x call at which the visitor fails",
  "Visitors of the tests never fail, or fail at one call of one reader.",
  [S + "wkb_reader.c", S + "wkt_reader.c", S + "array_view.c", S + "array_reader.c", S + "geometry.c", S + "visitor.c"],
  [("NANOARROW_RETURN_NOT_OK around each callback", S + "array_view.c"),
   ("reader state kept between calls", S + "wkt_reader.c")],
  ["GeoArrowWKBReaderVisit", "GeoArrowWKTReaderVisit", "GeoArrowArrayViewVisitNative", "GeoArrowArrayReaderVisit",
   "GeoArrowGeometryVisit", "GeoArrowVisitorInitVoid"],
  "The visitor forwards to a recorder so that callbacks see a real consumer.",
  "fault injection at generated calls against the trace of the full visit")

P("C28", "Arrays that do not match their type are refused with a message",
  "An array with another number of buffers or children than its type needs, at any level, is refused with an error "
  "code and message by readers, views (which stay as they were), kernels and the C++ readers; nothing outside the "
  "array is read and everything can be reset and used again with the right array. The C++ array classes refuse views of other types than theirs. "
  "The array as it should be is accepted.",
  ["inputs"], "all types x level and count that is wrong",
  "Tests try a wrong number of children at one place and no wrong number of buffers.",
  [S + "array_view.c", S + "array_reader.c", S + "hpp/array_reader.hpp", S + "hpp/array_util.hpp",
   "src/vendor/nanoarrow/nanoarrow.c"],
  [("checks of n_buffers and n_children", S + "array_view.c"), ("Init of the array classes", S + "hpp/array_util.hpp")],
  ["GeoArrowArrayViewSetArray", "GeoArrowArrayReaderSetArray", "GeoArrowKernel.push_batch", "geoarrow::ArrayReader"],
  "The buffers and children given are exactly as many as stated, so that ASan sees a read of more.",
  "property-based testing with generated structural corruption under ASan")

P("C29", "Arrow C++ extension types say, store and serialize the same type",
  "Over every history of making, changing, deserializing and comparing extension types, name, storage, serialized "
  "metadata, text and parts of each are those of a model, With...() changes nothing else and leaves its source as it "
  "was, and invalid requests give a Status. A type equals another exactly if geometry type, dimensions, coordinate "
  "type, edges and CRS (as spelled) are the same. Types and columns of them survive the C data interface: they come back as the "
  "same extension type if registered, and as storage if not.",
  ["histories", "inputs"], "all types and changes of them",
  "Tests make one type and change each part once without looking at its storage.",
  [S + "hpp/arrow_extension_type.hpp", S + "hpp/geometry_data_type.hpp"],
  [("storage type built for a type", S + "hpp/arrow_extension_type.hpp"),
   ("list of registered names", S + "hpp/arrow_extension_type.hpp")],
  ["geoarrow::arrow::GeometryExtensionType"],
  "Built against the Arrow C++ of the installed pyarrow.",
  "stateful model-based testing")

P("C13", "Any framed sequence of visitor calls leaves writers sound",
  "Whatever calls come between feat_start and feat_end, writers and geometry objects only accept or refuse them: no "
  "memory is read or written outside their buffers. If no call was refused, Finish gives an array whose rows, "
  "offsets, buffers and null count agree, and the next batch is exactly what is written to it. A feature abandoned "
  "after a refused call leaves the other rows of text and bytes as they would be.",
  ["histories"], "calls made on a writer or geometry visitor",
  "Tests make three wrong calls on an empty writer; what a wrong call does depends on everything called before it.",
  [S + "wkt_writer.c", S + "wkb_writer.c", S + "native_writer.c", S + "geometry.c"],
  [("visitor callbacks and level checks", S + "wkb_writer.c"), ("nodes and sizes by level", S + "geometry.c"),
   ("offsets by level", S + "native_writer.c")],
  ["GeoArrowVisitor of GeoArrowArrayWriter and GeoArrowGeometry"],
  "Coordinate views have as many ordinates as the geometry begun last, and calls outside a feature are not made.",
  "stateful property-based testing with mutated call sequences under ASan and UBSan")
