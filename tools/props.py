"""The properties, and what MANIFEST.json says about each. `python3 tools/gen.py` writes both files."""
CORE = "src/rust/fcb_core/src/"
ST = CORE + "static_btree/stree.rs"

TECH = "symbolic execution of the compiled code (LLVM IR from rustc) with SMT/SAT queries, exhaustive over all paths within stated bounds"
TRUST = "Trusts rustc's IR, the engine's IR semantics (cross-checked on every run by replaying sampled paths natively and a share of the queries in z3) and the environment models listed in the evidence."


def P(id, title, statement, over, text, why, files, mech, note, observe="", state=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    return dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                          why_tests_cant=why, anchors=a), note=note)


PROPS = [
    P("P01", "Exact attribute lookup finds precisely the entries with that key",
      "Looking up a key in an attribute index returns the offset of every entry stored under exactly that key, each once, and nothing else. This holds for any set of entries in any order, duplicates and extreme values included, any branching factor, and whether the index is held in memory, read through a seekable reader or fetched with range requests.",
      ["inputs", "configurations"], "every list of (key, offset) entries, every key type, every queried key, every branching factor and access path",
      "the tests look up a handful of fixed keys in fixed indices; a key equal to a separator, to the type's greatest value or at a block edge is reached only by particular combinations of contents and query",
      [ST + "stree.rs", ST + "entry.rs", ST + "payload.rs"],
      [("exact search in memory, stream and HTTP", ST + "stree.rs"), ("index wrappers", ST + "query/memory.rs, query/stream.rs, query/http.rs")],
      "Up to 14 (thorough 30) symbolic distinct keys or 6 (8) possibly equal ones, all key types, three access paths."),
    P("P02", "Attribute range lookup finds precisely the entries within its bounds",
      "A range lookup with an inclusive lower and/or upper bound returns every entry whose key lies within the bounds, each once, and nothing else. This holds for any contents, key type, branching factor and access path, and for ranges that are empty, reversed or open on one side.",
      ["inputs", "configurations"], "every list of entries, every key type, every pair of bounds, every branching factor and access path",
      "tests use a few fixed ranges over evenly spaced keys; whether a bound is missing, equal to a key or a separator, or outside the stored keys depends on contents and query together",
      [ST + "stree.rs"],
      [("range search in memory, stream and HTTP", ST + "stree.rs"), ("index wrappers", ST + "query/memory.rs, query/stream.rs, query/http.rs")],
      "Up to 12 (thorough 30) symbolic distinct keys or 5 (7) possibly equal ones. One known finding (K01: an upper bound equal to the first key of a leaf block), pinned by the existing tests, is reported as KNOWN-FINDING."),
    P("P03", "Attribute conditions and their conjunction mean what they say",
      "A query with the operators =, ≠, <, ≤, >, ≥ returns exactly the features that have an object satisfying the condition, and a query of several conditions returns exactly the features that satisfy every one of them. Each feature is returned once, also when several of its objects match or share a value, and the answer is the same in memory, through a reader and over range requests.",
      ["inputs", "configurations"], "every set of features and attribute values, every operator and operand, every combination of conditions",
      "tests evaluate fixed queries on one data set; strict operators and negation go wrong only when a bound coincides with stored keys or one feature carries several values",
      [ST + "query/types.rs", ST + "query/memory.rs", ST + "query/stream.rs", ST + "query/http.rs"],
      [("operators", ST + "query/types.rs"), ("conjunction by intersection", ST + "query/memory.rs, query/stream.rs, query/http.rs")],
      "Indices as in P02 with any operator and operand; two conditions on two fields; several objects in a feature. K02 is K01 seen through the operators."),
    P("P04", "An attribute index survives being written and read back",
      "Writing an attribute index and reading it back gives an index with the same entries and answers, whatever the keys, their order, how many share a key and the feature offsets below 2^63. The number of bytes written is the size the index declares and the size computed from its header information, so that what follows it in a file is found at the right place.",
      ["inputs", "configurations"], "every list of entries, key type, branching factor and offset",
      "round trips are tested on a few small fixed indices; sizes depend on the number of distinct keys and payload entries, offsets use up to 63 bits",
      [ST + "stree.rs", ST + "payload.rs", ST + "entry.rs"],
      [("serialisation and size", ST + "stree.rs"), ("payload of duplicate keys", ST + "payload.rs"), ("fixed width entries", ST + "entry.rs")],
      "Up to 40 distinct symbolic keys, 4 (7) in any order; any offset below 2^63."),
    P("P05", "Key encodings keep value and order",
      "Every key type has a fixed encoded width, is read back as the value written, and compares in the natural order of its values (numeric, chronological, byte-wise for strings, false before true). The least and greatest key used for open ranges bound every value of the type.",
      ["inputs"], "every pair of values of every key type",
      "tests round-trip a few constants per type; the order must hold for every pair, including signs, infinities and dates before 1970",
      [ST + "key.rs"], [("key encodings", ST + "key.rs")],
      "All pairs of values of 14 key types; dates from a table of 6 instants; strings of up to 2 characters."),
    P("P06", "Spatial box and point queries return exactly the matching features",
      "Searching the spatial index with a box returns every feature whose bounding box shares at least a point with it (borders count), each once, with its own position and offset, and nothing else; a point query returns exactly the features whose box contains the point. This holds for any boxes and any node size, in memory, through a reader (which is left at the end of the index), over range requests with any combining of requests, and after reading the index back.",
      ["inputs", "configurations"], "every list of boxes with non-NaN coordinates, every query box and point, every node size, access path and request threshold",
      "tests use fixed grids of boxes, and nothing tests range requests without a network; pruning errors show only for particular placements of boxes across nodes",
      [CORE + "packed_rtree/mod.rs"], [("search, stream search and range-request search", CORE + "packed_rtree/mod.rs")],
      "3 (4) boxes with any doubles, up to 7 in one direction, node sizes 2, 3, 4, 16, five access paths."),
    P("P07", "The spatial index is laid out as the format says",
      "Every node of a spatial index covers exactly the union of its children and points at the first of them, the root covers the extent of all features, leaves keep the given boxes and offsets in order, and reading the index back reproduces it. Its length in bytes follows from the number of features and the node size alone. Sorting along the Hilbert curve reorders the features without losing or changing any.",
      ["inputs", "configurations"], "every list of boxes, number of features and node size",
      "the tests look at two small fixed trees; sizes and levels differ for each count, tight boxes depend on the coordinates",
      [CORE + "packed_rtree/mod.rs"], [("building, writing, reading", CORE + "packed_rtree/mod.rs"), ("Hilbert sort", CORE + "packed_rtree/mod.rs")],
      "Up to 7 (33) boxes with 16 bit coordinates; lengths up to 65535 (2^31-1) items; sorting up to 4 points on a grid."),
    P("P08", "A nearest-feature query returns a feature no other is nearer than",
      "A nearest-feature query on a non-empty spatial index returns one feature, with its own position and offset, such that no other feature has the centre of its bounding box nearer to the point. Features without vertices (empty boxes) never win against others and do not make the query fail. This holds in memory, through a reader, over range requests and after reading the index back.",
      ["inputs", "configurations"], "every list of boxes, empty ones included, and every query point",
      "tests ask for the nearest of a few separated boxes; wrong pruning needs particular distances between node boxes and centres",
      [CORE + "packed_rtree/mod.rs"], [("nearest search (three implementations)", CORE + "packed_rtree/mod.rs")],
      "2 boxes on a 16 by 16 grid, 4 (5) on a line of 16 positions, one possibly empty; distances are exact on these grids, rounding is outside."),
    P("P09", "Geometries keep their boundaries and level of detail",
      "A geometry of any CityJSON type written to a file and read back, with or without seeking, has the same type, the same level of detail and the same boundaries: the same nesting of solids, shells, surfaces and rings down to each vertex index. This holds for any number of parts at each level, single parts included, and for several geometries in a feature.",
      ["inputs"], "every geometry type, every nesting with non-empty parts, every vertex index",
      "the flattened lists of counts only decode to the right nesting for particular shapes (one shell, several surfaces, ...); tests use a few shapes taken from real buildings",
      [CORE + "writer/geom_encoder.rs", CORE + "reader/geom_decoder.rs", CORE + "writer/serializer.rs", CORE + "reader/deserializer.rs"],
      [("flattening boundaries", CORE + "writer/geom_encoder.rs"), ("rebuilding them", CORE + "reader/geom_decoder.rs")],
      "Every shape with up to 2 or 3 parts per level, every vertex index."),
    P("P10", "Surfaces keep their semantics",
      "The semantics of a geometry are read back as written: each point, line or surface refers to the same semantic surface or to none, in the same nesting, and each semantic surface has the same type (standard or extension), parent and children. This holds for every geometry type and any shape.",
      ["inputs"], "every geometry type and shape, every assignment of semantic surfaces, every parent and children relation",
      "values are flattened and rebuilt from the shape of the boundaries, so errors depend on shape and type together; tests use a few buildings",
      [CORE + "writer/geom_encoder.rs", CORE + "reader/geom_decoder.rs", CORE + "writer/serializer.rs", CORE + "reader/deserializer.rs"],
      [("flattening semantics", CORE + "writer/geom_encoder.rs"), ("rebuilding them", CORE + "reader/geom_decoder.rs")],
      "Every shape with up to 2 (thorough 3) surfaces per shell, two semantic surfaces of any standard type."),
    P("P11", "Surfaces keep their materials and textures",
      "The material and texture references of a geometry are read back as written for every theme: one material for the whole geometry or one per surface, texture and texture-vertex indices per ring, with null where there is none and in the same nesting. This holds for every geometry type made of surfaces or solids and any shape.",
      ["inputs"], "every geometry type and shape, every theme, every index or null",
      "references are flattened to counts and rebuilt; single shells and solids, nulls and several themes only matter in combination",
      [CORE + "writer/geom_encoder.rs", CORE + "reader/geom_decoder.rs", CORE + "writer/serializer.rs", CORE + "reader/deserializer.rs"],
      [("flattening references", CORE + "writer/geom_encoder.rs"), ("rebuilding them", CORE + "reader/geom_decoder.rs")],
      "Every shape with up to 2 or 3 parts per level, one or two themes, any index."),
    P("P12", "Features keep their identity, objects, relations, vertices and appearance",
      "A feature read back has its id, its vertices in order, and its city objects with their ids, types (extensions included), extents, parents, children, children roles and geometries, instances of templates with their transformation included. Its appearance (materials, textures, texture vertices and default themes) is read back with exactly the fields that were given. Nothing that was not written appears.",
      ["inputs"], "every feature: any ids, 32 bit vertices, types, relations, extents, instances and appearances with any subset of optional fields",
      "tests compare a few files in which most optional fields are absent; a swapped or dropped field shows only when the values differ and the field is set",
      [CORE + "writer/serializer.rs", CORE + "reader/deserializer.rs", CORE + "fb/feature_generated.rs"],
      [("writing features", CORE + "writer/serializer.rs"), ("reading features", CORE + "reader/deserializer.rs")],
      "All object types; any extent, vertices and instances; relations of up to 2 names; any subset of the fields of a material and a texture."),
    P("P13", "Attributes keep their values",
      "The attributes of city objects and of semantic surfaces are read back with the names and values that were written: booleans, integers of up to 64 bits, doubles bit for bit, strings, dates, arrays and nested members. This holds whichever columns the file has: one object may lack an attribute another has, have a value of another type, or one that the file's columns do not know. Nulls may be left out, an integer may come back as the equal double, and nothing else appears.",
      ["inputs"], "every JSON value under any name, in any combination of objects and schema",
      "the encoding packs values by column type and position, so that one wrong width or one missing value shifts all that follow; tests use a few objects whose values fit their columns",
      [CORE + "writer/attribute.rs", CORE + "writer/serializer.rs", CORE + "reader/deserializer.rs"],
      [("columns and packing", CORE + "writer/attribute.rs"), ("unpacking", CORE + "reader/deserializer.rs")],
      "Up to 2 (3) attributes or objects with any values of any types, columns of every type, three ways of reading."),
    P("P14", "A file keeps its metadata, appearance, templates and columns",
      "What is said about a whole file is read back as it was given: version, transform, identifier, reference date, title, geographical extent (the one asked for when writing, if any), point of contact with its address, reference system, appearance, geometry templates with their vertices, extensions, and the names and types of the attribute columns and which of them have an index. Each field is independent of whether the others are given, and one that was not given stays absent.",
      ["inputs"], "every subset of the fields with any values",
      "tests compare one or two files in which most fields are set to plain values or absent; a swapped or lost field shows only for other combinations",
      [CORE + "writer/serializer.rs", CORE + "writer/header_writer.rs", CORE + "reader/deserializer.rs", CORE + "fb/header_generated.rs"],
      [("writing headers", CORE + "writer/serializer.rs"), ("reading headers", CORE + "reader/deserializer.rs")],
      "Any subset of the fields, short strings, any doubles, one (two) templates, three ways of reading."),
    P("P15", "A file gives back every feature once",
      "Reading a file from start to end returns every feature that was added exactly once, with its content, and then the end of the file, whether or not the file has a spatial or an attribute index and whether it is read with seeking, sequentially or over HTTP range requests. The header says how many features there are. A file without features is read as such.",
      ["inputs", "configurations"], "every number of features, every position and content of them, every combination of indices and reader",
      "features are stored sorted along a curve and found by offsets and lengths computed in several places; tests read one or two fixed files and none over range requests without a network",
      [CORE + "writer/mod.rs", CORE + "writer/feature_writer.rs", CORE + "reader/mod.rs", CORE + "http_reader/mod.rs"],
      [("writing", CORE + "writer/mod.rs"), ("reading", CORE + "reader/mod.rs"), ("reading over HTTP", CORE + "http_reader/mod.rs")],
      "Up to 3 (5) features of symbolic place and content, all combinations of indices, three readers, gaps of 300000 bytes."),
    P("P16", "Spatial queries on files return exactly the matching features",
      "A box or point query on a file returns exactly the features whose vertices' extent (in world coordinates, in the plane) shares a point with the box or contains the point, each once, with its whole content; a nearest query returns one feature whose extent's centre is nearest. The answer is the same read with seeking, sequentially or over range requests, with or without attribute indices in the file. A file without a spatial index refuses.",
      ["inputs", "configurations"], "every set of features, every query and reader",
      "the extent, the transform, the sorting, the index and the offsets must all agree; tests query one file with a few boxes",
      [CORE + "writer/mod.rs", CORE + "writer/feature_writer.rs", CORE + "reader/mod.rs", CORE + "http_reader/mod.rs", CORE + "packed_rtree/mod.rs"],
      [("extents and sorting", CORE + "writer/mod.rs"), ("queries", CORE + "reader/mod.rs"), ("queries over HTTP", CORE + "http_reader/mod.rs")],
      "2 or 3 (4) features at any of 3 places, any box or point, nearest of 2 (3), three readers."),
    P("P17", "Attribute queries on files return exactly the matching features",
      "An attribute query on a file returns exactly the features of which an object's attribute satisfies every condition, each once, with its whole content, for every type of attribute that can be indexed, every comparison, and whichever of several indexed attributes is asked for. Features that lack the attribute never match. The answer is the same read with seeking, sequentially or over range requests, with or without a spatial index. A query on an attribute without an index is refused.",
      ["inputs", "configurations"], "every set of features and values, every operator, operand, number of indices and reader",
      "each type and reader has code of its own for keys, index offsets and feature positions; tests use a few values in one file and not the range requests",
      [CORE + "writer/attr_index.rs", CORE + "reader/attr_query.rs", CORE + "http_reader/mod.rs", CORE + "static_btree/stree.rs"],
      [("building indices", CORE + "writer/attr_index.rs"), ("queries", CORE + "reader/attr_query.rs"), ("queries over HTTP", CORE + "http_reader/mod.rs")],
      "2 (3) features, 9 types, 6 operators, any value and operand, one or three indices, one or two conditions, three readers."),
    P("P18", "Damage and failures are errors, never wrong or missing features",
      "If a file ends early at any point, or its source fails at any read, seek or request, reading it in any way ends in an error, after correct features only; it never ends as if all features had been read. Sources that give fewer bytes than asked for or are interrupted change nothing. Writing to a destination that fails or is full is an error, and one that takes few bytes at a time gets the same file. What does not start like a file, has a header of impossible size, or a header or feature that the format's verifier rejects after a byte was changed, is an error and is not handed out; other features stay as they are, and no changed byte makes the readers access memory they do not own.",
      ["faults", "inputs"], "every length, every failing call, every changed byte",
      "tests read intact files from disk; each fault needs one particular point of the file or one particular call",
      [CORE + "reader/mod.rs", CORE + "reader/attr_query.rs", CORE + "http_reader/mod.rs", CORE + "packed_rtree/mod.rs", CORE + "static_btree/stree.rs", CORE + "writer/mod.rs"],
      [("reading", CORE + "reader/mod.rs"), ("reading over HTTP", CORE + "http_reader/mod.rs"), ("indices over HTTP", CORE + "static_btree/stree.rs"), ("writing", CORE + "writer/mod.rs")],
      "Files of 2 or 3 features; one fault at a time, at every place; every value of a changed byte."),
    P("P19", "The command line program converts without loss and selects what its options say",
      "`fcb ser` writes the metadata and the features of a CityJSONSeq text to a file, and `fcb deser` writes them back as text: the metadata and one line per feature, each once and with the same content. With `-b` exactly the features with a vertex in the box (bounds included) are kept, and a box with a lower bound above its upper one is refused. The extent in the file is that of the vertices of the features kept, or with `-g false` the one of the text. The spatial index is there unless `-s false`; the attributes named with `-a`, all with `-A true`, and no others have an index. `-` stands for the standard input or output, and nothing else is written there. A text or a file that ends early, or a disk that is full, makes the program end with failure. `fcb info` tells the number of features, title, extent and indexed attributes.",
      ["inputs", "faults"], "every number in text and box, every choice of options, every length of a cut text or file, every size of a full disk",
      "the only test of the program checks that its options are declared consistently; nothing runs it",
      ["src/rust/cli/src/main.rs", CORE + "cj_utils.rs", CORE + "writer/mod.rs", CORE + "reader/mod.rs"],
      [("the program", "src/rust/cli/src/main.rs"), ("reading text", CORE + "cj_utils.rs")],
      "Texts of up to 3 features with numbers of 1 or 2 digits; every option but cbor and bson."),
]

NOT_CLAIMED = []
HOOKS = None
