"""What each check runs: the symbolic jobs per property and their bounds."""

COMMON_ASSUMPTIONS = [
    "rustc's own IR (opt-level 2, fat LTO, overflow checks and debug assertions on, panic=abort) is what is executed; the engine's semantics of that IR is trusted, and validated on every run by re-running sampled paths in the native build of the same harness",
    "allocation never fails, the file system and clock behave as modelled in engine/src/env.rs (files are byte sequences, no I/O faults unless a job injects them)",
    "single-threaded execution",
]

KINDS = dict(i32=0, i8=1, u8=2, i16=3, u16=4, u32=5, i64=6, u64=7, bool=8, f64=9, f32=10, datetime=11, str20=12, str50=13, str100=14)
BACK = dict(memory=0, reader=1, http=2)
Q, T = "quick", "thorough"


def J(bin, entry, params=(), reach=(1,), time=60, tier=Q, **k):
    return dict(bin=bin, entry=entry, params=list(params), reach=list(reach), time=time, tier=tier, **k)


def btree_jobs(entry, extra=lambda b: [()], n_any=4, n_dup=6, sizes=(28, 28, 14, 24), deep=(60, 45)):
    """extra(backend) -> additional trailing params; sizes: for branching factors 3, 4, 2, 5"""
    js = []
    for bname, b in BACK.items():
        for x in extra(b):
            js += [
                J("btree", entry, (n_any, 3, 0, 0, b, *x), (1, 2), 200, bounds=f"{n_any} arbitrary i32 entries in any order, branching factor 3, {bname}"),
                J("btree", entry, (n_dup, 3, 0, 1, b, *x), (1, 2), 200, bounds=f"{n_dup} i32 entries in nondecreasing order (duplicates), branching factor 3, {bname}"),
                J("btree", entry, (sizes[0], 3, 0, 3, b, *x), (1, 2), 300, bounds=f"1 to {sizes[0]} distinct i32 entries, branching factor 3, {bname}"),
                J("btree", entry, (sizes[1], 4, 6, 3, b, *x), (1, 2), 300, bounds=f"1 to {sizes[1]} distinct i64 entries, branching factor 4, {bname}"),
                J("btree", entry, (sizes[2], 2, 0, 3, b, *x), (1, 2), 300, bounds=f"1 to {sizes[2]} distinct i32 entries, branching factor 2, {bname}"),
                J("btree", entry, (sizes[3], 5, 0, 3, b, *x), (1, 2), 300, bounds=f"1 to {sizes[3]} distinct i32 entries, branching factor 5, {bname}"),
                J("btree", entry, (n_any + 1, 4, 0, 0, b, *x), (1, 2), 3000, T, bounds=f"{n_any + 1} arbitrary i32 entries in any order, branching factor 4, {bname}"),
                J("btree", entry, (n_dup + 2, 4, 0, 1, b, *x), (1, 2), 3000, T, bounds=f"{n_dup + 2} i32 entries in nondecreasing order, branching factor 4, {bname}"),
                J("btree", entry, (5, 2, 0, 1, b, *x), (1, 2), 900, T, bounds=f"5 i32 entries in nondecreasing order, branching factor 2, {bname}"),
                J("btree", entry, (deep[0], 3, 0, 2, b, *x), (1, 2), 3000, T, bounds=f"{deep[0]} distinct i32 entries, branching factor 3, {bname}"),
                J("btree", entry, (deep[1], 3, 0, 3, b, *x), (1, 2), 3000, T, bounds=f"1 to {deep[1]} distinct i32 entries, branching factor 3, {bname}"),
                J("btree", entry, (deep[0], 16, 0, 3, b, *x), (1, 2), 3000, T, bounds=f"1 to {deep[0]} distinct i32 entries, branching factor 16 (the default), {bname}"),
            ]
    return js


def kind_jobs(entry, kinds, n, extra=(), b=3, sorted=1, backs=(0, 1, 2), **k):
    return [J("btree", entry, (n, b, KINDS[q], sorted, x, *extra), (1, 2), 200, bounds=f"{n} {q} entries in nondecreasing order, branching factor {b}", **k) for q in kinds for x in backs]


OTHER = [k for k in KINDS if k != "i32"]

RB = dict(memory=0, reader=1, http=2, readback=3, http_readback=4)


def find_jobs():
    js = []
    for name, x in RB.items():
        for th in ((0, 262144) if x == 2 else (0,)):
            for q in (0, 1):
                w = f"{'point' if q else 'box'} queries, {name}" + (f", requests combined up to {th} bytes" if x == 2 else "")
                js += [
                    J("rtree", "find", (3, 2, x, 0, q, th), (1, 2), 200, bounds=f"3 boxes of any non-NaN doubles, node size 2, {w}"),
                    J("rtree", "find", (4, 2, x, 2, q, th), (1, 2), 200, bounds=f"4 boxes with any x extent, node size 2, {w}"),
                    J("rtree", "find", (5, 4, x, 5, q, th), (1, 2), 200, bounds=f"5 boxes on a line of 16, node size 4, {w}"),
                    J("rtree", "find", (1, 16, x, 0, q, th), (1, 2), 100, bounds=f"1 box, node size 16, {w}"),
                    J("rtree", "find", (5, 4, x, 2, q, th), (1, 2), 3000, T, bounds=f"5 boxes with any x extent, node size 4, {w}"),
                    J("rtree", "find", (4, 3, x, 0, q, th), (1, 2), 3000, T, bounds=f"4 boxes of any non-NaN doubles, node size 3, {w}"),
                    J("rtree", "find", (7, 2, x, 2, q, th), (1, 2), 3000, T, bounds=f"7 boxes with any x extent, node size 2 (4 levels), {w}"),
                    J("rtree", "find", (5, 2, x, 3, q, th), (1, 2), 3000, T, bounds=f"5 boxes on a 16 by 16 grid, node size 2, {w}"),
                ]
    return js


def nearest_jobs():
    js = []
    for name, x in RB.items():
        js += [
            J("rtree", "nearest", (2, 2, x, 3, 0), (1, 2), 200, bounds=f"2 boxes and a point on a 16 by 16 grid, {name}"),
            J("rtree", "nearest", (3, 2, x, 5, 0), (1, 2), 200, bounds=f"3 boxes and a point on a line of 16, {name}"),
            J("rtree", "nearest", (4, 3, x, 5, 0), (1, 2), 300, bounds=f"4 boxes and a point on a line of 16, node size 3, {name}"),
            J("rtree", "nearest", (3, 2, x, 6, 1), (1, 2), 200, bounds=f"2 boxes on an 8 by 8 grid and an empty one, {name}"),
            J("rtree", "nearest", (1, 16, x, 3, 0), (1,), 100, bounds=f"1 box, {name}"),
            J("rtree", "nearest", (4, 2, x, 5, 0), (1, 2), 1500, T, bounds=f"4 boxes on a line of 16, {name}"),
            J("rtree", "nearest", (3, 2, x, 6, 0), (1, 2), 3000, T, bounds=f"3 boxes on an 8 by 8 grid, {name}"),
            J("rtree", "nearest", (5, 2, x, 5, 0), (1, 2), 3000, T, bounds=f"5 boxes on a line of 16, {name}"),
        ]
    return js


VIA = {1: "read with seeking", 2: "read sequentially"}

MODE = {0: "read with seeking", 1: "read sequentially", 2: "read over range requests"}
ATYPE = ["ULong", "Long", "Double", "Bool", "String", "DateTime", "Int", "UInt", "Float"]


def attribute_jobs():
    js = []
    for m in MODE:
        js += [J("file", "attributes", (2, m, t, o, 1, 1), (1, 2), 200, bounds=f"2 features with a {n} attribute, {'three indices' if o else 'one index'}, {MODE[m]}") for t, n in enumerate(ATYPE) for o in (1,) if n not in ("DateTime", "Float")]
        js += [J("file", "attributes", (2, m, t, 0, s, 1), (1, 2), 200, bounds=f"2 features with a {ATYPE[t]} attribute, one index, {'with' if s else 'no'} spatial index, {MODE[m]}") for t, s in ((0, 0), (1, 1), (4, 0), (3, 1))]
        js += [J("file", "attributes", (2, m, t, 1, 1, 2), (1, 2), 200, bounds=f"2 features, two conditions, on a {ATYPE[t]} attribute first, {MODE[m]}") for t in (0, 4, 3)]
        js += [J("file", "attributes", (n, m, t, o, 1, c), (1, 2), 1500, T, bounds=f"{n} features with a {ATYPE[t]} attribute, {c} condition(s), {MODE[m]}") for n, t, o, c in ((3, 0, 1, 1), (3, 1, 0, 1), (3, 4, 1, 1), (3, 6, 1, 2), (2, 8, 1, 2), (2, 5, 1, 2), (3, 2, 0, 1))]
    js += [J("file", "attributes", (2, m, t, 1, 1, 1), (1, 2), 300, bounds=f"2 features with a {ATYPE[t]} attribute, three indices, {MODE[m]}") for m, t in ((0, 5), (1, 5), (2, 5), (1, 8))]
    return js


HVIA = {0: "read from the header", 1: "read from the header while features are read", 2: "read over range requests"}
SEL = {0: "everything", 1: "a box query", 2: "an attribute query"}
HOW = {0: "no index", 1: "a spatial index", 2: "both indices"}


def cli_jobs():
    feats = lambda n, v, r: f"{n} features of {v} vertices" + ["", ", attributes", ", attributes, geometry, a second object"][r]
    js = []
    for n, v, r, d, flat, tier in ((0, 0, 0, 1, 0, Q), (1, 1, 1, 2, 0, Q), (1, 1, 2, 1, 0, Q), (1, 2, 2, 1, 0, Q), (2, 1, 1, 1, 1, Q), (2, 0, 1, 1, 0, Q), (2, 1, 2, 2, 1, T), (2, 2, 1, 1, 1, T)):
        js.append(J("cli", "turn", (n, v, r, d, flat), time=300 if tier == Q else 800, tier=tier, bounds=f"ser and deser of {feats(n, v, r)}, every number of {d} digits, every choice of index and extent options"))
    for n, v, frac, b, d, ge, tier in ((1, 2, 0, 2, 2, 0, Q), (2, 1, 0, 2, 2, 0, Q), (3, 1, 0, 1, 1, 1, Q), (1, 2, 0, 1, 1, 1, Q), (2, 2, 0, 1, 1, 0, T), (1, 1, 1, 1, 1, 0, T), (3, 2, 0, 1, 1, 1, T)):
        js.append(J("cli", "bbox", (n, v, frac, b, d, ge), reach=(1, 2, 3), time=300 if tier == Q else 800, tier=tier, bounds=f"ser with a box of {b} digit numbers of {feats(n, v, 0)} of {d} digits, {'extent' if ge else 'content'}"))
    for v, r in ((0, 0), (1, 2)):
        js.append(J("cli", "pipe", (v, r), time=200, bounds="standard input and output"))
    for n, r, tier in ((1, 1, Q), (1, 2, Q), (2, 0, Q), (2, 1, T)):
        js.append(J("cli", "cut", (n, r), time=300 if tier == Q else 800, tier=tier, bounds=f"a file of {feats(n, 1, r)} cut to every length"))
    for r in (0, 2):
        js.append(J("cli", "torn", (r,), time=200, bounds="text cut to every length"))
    for r, k, tier in ((0, 0, Q), (0, 1, Q), (2, 0, T), (2, 1, T)):
        js.append(J("cli", "full", (r, k), time=200, tier=tier, bounds="every size of a disk that is too small, " + ("deser" if k else "ser")))
    for n in (0, 1, 2):
        js.append(J("cli", "info", (n,), time=200, bounds=f"info on a file of {n} features"))
    js.append(J("cli", "many", (1001,), time=200, bounds="1001 features of which the last has other attributes"))
    return js


def fault_jobs():
    js = []
    for m in MODE:
        for s in SEL:
            w = f"{SEL[s]}, {HOW[2]}, {MODE[m]}"
            js += [
                J("fault", "cut", (m, s, 2), (1, 2), 100, bounds=f"a file cut at any length; {w}"),
                J("fault", "failing", (m, s, 2), (1, 2), 100, bounds=f"any of the first 60 calls fails; {w}"),
            ]
            if m != 2:
                js.append(J("fault", "short", (m, s, 2), (1,), 100, bounds=f"any of the first 60 calls is interrupted or gives 1 to 8 bytes; {w}"))
        for h in (0, 1):
            js.append(J("fault", "cut", (m, 0, h), (1, 2), 100, bounds=f"a file cut at any length; {SEL[0]}, {HOW[h]}, {MODE[m]}"))
        js += [
            J("fault", "magic", (m,), (1, 2), 60, bounds=f"any first eight bytes, {MODE[m]}"),
            J("fault", "size", (m,), (1,), 60, bounds=f"any header size below 8 or above 512 MB, {MODE[m]}"),
        ]
        for part, size, step in ((0, 240, 48), (1, 256, 256), (2, 340, 24)):
            for a in range(0, size, step):
                last = a + step >= size
                t = T if m and part else Q
                js.append(J("fault", "flip", (m, 0, 2, part, a, 1 << 20 if last else step), (2,), 300, t, bounds=f"bytes {a} to {'the last' if last else a + step - 1} of {('the header', 'the indices', 'the features')[part]} changed to any value, {MODE[m]}"))
        for s in (1, 2):
            for a in range(0, 340, 24):
                last = a + 24 >= 340
                t = Q if (m != 1 and a in (0, 96, 216)) else T
                js.append(J("fault", "flip", (m, s, 2, 2, a, 1 << 20 if last else 24), (2,), 300, t, bounds=f"bytes {a} to {'the last' if last else a + 23} of the features changed to any value, {SEL[s]}, {MODE[m]}"))
        if m != 1:
            for s in (1, 2):
                for a in range(0, 160, 16):
                    js.append(J("fault", "flip", (m, s, 2, 1, a, 24 if a == 144 else 16), (2,), 400, T, bounds=f"bytes {a} to {a + (23 if a == 144 else 15)} of the indices changed to any value, {SEL[s]}, {MODE[m]}"))
    for h in HOW:
        js.append(J("fault", "sink", (h,), (1, 2), 60, bounds=f"a destination that fails, is full at any length, is interrupted or takes 1 to 9 bytes; {HOW[h]}"))
    return js


SPECS = {
    "P01": dict(
        jobs=btree_jobs("exact_any") + kind_jobs("exact_any", [k for k in OTHER if k != "datetime"], 3) + kind_jobs("exact_any", ["datetime"], 2) + kind_jobs("exact_any", OTHER, 4, tier=T, b=2)
        + [J("btree", "many", (4, b, 0), (1, 2), 200, bounds="2047 to 2043 entries of one key and 2, 1, 3, 2 of others, any query key") for b in (0, 1, 2)],
        bounds="indices of any number up to 28 of distinct (thorough: 60) or 6 possibly equal (thorough: 8) symbolic keys, branching factors 2, 3, 4, 5 (thorough: and 16), every key type (dates from a table of 6 instants, strings of up to 2 characters), any query key; around 2050 duplicates (more than is fetched ahead); in memory, through a reader, over range requests",
        outside="longer indices; strings longer than 2 characters; keys equal to NaN; faults of the transport",
    ),
    "P02": dict(
        jobs=btree_jobs("range_any", lambda b: [(0,), (1,), (2,)] if b == 0 else [(0,)], n_any=3, n_dup=5, sizes=(20, 20, 10, 16), deep=(40, 28))
        + kind_jobs("range_any", [k for k in OTHER if k != "datetime"], 3, (1,)) + kind_jobs("range_any", [k for k in OTHER if k != "datetime"], 3, (2,)) + kind_jobs("range_any", ["datetime"], 2, (1,)) + kind_jobs("range_any", ["datetime"], 2, (2,))
        + [J("btree", "many", (4, b, 1), (1, 2), 200, bounds="2047 to 2043 entries of one key and 2, 1, 3, 2 of others, any range") for b in (0, 1, 2)],
        bounds="as P01 with up to 20 (thorough: 40) distinct keys, ranges with both, only a lower and only an upper bound",
        outside="as P01",
    ),
    "P03": dict(
        jobs=btree_jobs("op_any", lambda b: [(6,)], n_any=3, n_dup=4, sizes=(14, 14, 10, 16), deep=(40, 24))
        + kind_jobs("op_any", [k for k in OTHER if k != "datetime"], 3, (6,)) + kind_jobs("op_any", ["datetime"], 2, (6,))
        + [J("btree", "multi", (2, 4, b), (1, 2), 600, bounds="two conditions on two fields of 2 features, asked twice") for b in (0, 1, 2)]
        + [J("btree", "multi", (1, 4, b, 3, 2), (1, 2), 300, bounds="three conditions on three fields of 1 feature, two of the operators on the second and third, asked twice") for b in (0, 1, 2)]
        + [J("btree", "multi", (2, 4, b, 3), (1, 2), 3000, T, bounds="three conditions on three fields of 2 features, asked twice") for b in (0, 1, 2)] + [J("btree", "shared", (4, b), (1, 2), 200) for b in (0, 1, 2)]
        + [J("btree", "multi", (3, 5, b), (1, 2), 3000, T) for b in (0, 1, 2)],
        bounds="all six operators with any operand over the indices of P01; two conditions on two fields of 2 (thorough: 3) features, three conditions on three fields, each query asked twice; three objects in two features",
        outside="more than three conditions; as P01",
    ),
    "P04": dict(
        jobs=[J("btree", "serial", (4, 3, k, 1), (1,), 200, bounds=f"4 {n} entries") for n, k in KINDS.items() if n != "datetime"]
        + [J("btree", "serial", (2, 3, KINDS["datetime"], 1)), J("btree", "serial", (4, 3, 0, 0), (1,), 200), J("btree", "serial", (16, 3, 0, 2), (1,), 200), J("btree", "serial", (40, 16, 0, 2), (1,), 300)]
        + [J("btree", "offsets", (3, 4, b), (1,), 200, bounds="any 63 bit offsets, three of them under one key") for b in (0, 1, 2)]
        + [J("btree", "serial", (7, 3, 0, 1), (1,), 900, T), J("btree", "serial", (5, 4, 0, 0), (1,), 3000, T), J("btree", "offsets", (6, 4, 1), (1,), 600, T)],
        bounds="indices of up to 4 symbolic keys in any order (40 distinct keys), every key type; any 63 bit offsets",
        outside="offsets of 2^63 and more (the top bit is the format's tag)",
    ),
    "P05": dict(
        jobs=[J("btree", "keys", (k,), (1,), 100, bounds=f"any two {n} keys") for n, k in KINDS.items()],
        bounds="every pair of keys of every key type (dates from a table of 6 instants, strings of up to 2 characters), any offset",
        outside="strings beyond 2 characters, NaN",
    ),
    "P06": dict(
        jobs=find_jobs(),
        bounds="up to 3 (thorough: 4) boxes of any doubles, 5 (thorough: 7) boxes varying in one direction, any query box or point, node sizes 2, 3, 4 and 16; in memory, through a reader, over range requests, and after reading the index back",
        outside="larger indices, NaN coordinates, faults of the transport",
    ),
    "P07": dict(
        jobs=[J("rtree", "structure", p, (1,), 200, bounds=f"{p[0]} boxes with 16 bit coordinates, node size {p[1]}") for p in ((1, 2, 4), (2, 2, 4), (3, 2, 4), (6, 2, 4), (7, 3, 4), (5, 16, 4))]
        + [J("rtree", "structure", p, (1,), 3000, T, bounds=f"{p[0]} boxes with 16 bit coordinates, node size {p[1]}") for p in ((16, 3, 4), (17, 16, 4), (33, 16, 4))]
        + [J("rtree", "size", (2, 12), (1,), 100, bounds="1 to 4095 items, node size 2"), J("rtree", "size", (16, 16), (1,), 100, bounds="1 to 65535 items, node size 16"), J("rtree", "size", (16, 31), (1,), 3000, T, bounds="1 to 2^31-1 items, node size 16")]
        + [J("rtree", "size", (b, 0, k), (1,), 100, bounds=f"2^{k}-4 to 2^{k}+3 items, node size {b}") for (b, k) in ((16, 16), (16, 24), (16, 25), (2, 25), (16, 31), (16, 32), (3, 33), (65535, 40))]
        + [J("rtree", "sorting", p, (1,), 200, bounds=f"{p[0]} points on a grid of {1 << p[1]} by {1 << p[1]}") for p in ((2, 4), (3, 3), (4, 2))] + [J("rtree", "sorting", (4, 3), (1,), 3000, T), J("rtree", "sorting", (2, 5), (1,), 3000, T)],
        bounds="indices of up to 7 (thorough: 33) boxes with any 16 bit integer coordinates; lengths of indices of up to 65535 (thorough: 2^31-1) items, and of a few around 2^16, 2^24, 2^25, 2^31, 2^32, 2^33, 2^40; sorting of up to 4 points on a grid",
        outside="larger indices; the order along the curve on finer grids",
    ),
    "P08": dict(
        jobs=nearest_jobs(),
        bounds="2 boxes and a point on a 16 by 16 grid, 4 (thorough: 5) boxes on a line of 16, with and without an empty box",
        outside="coordinates that do not fit the grid (rounding of distances), more boxes",
    ),
    "P09": dict(
        jobs=[J("feature", "boundaries", (t, d, v, lod), (1,), 200, bounds=f"{n}, up to {'x'.join(str(d))} parts per level, {VIA[v]}") for (t, n, d, lod) in (
                (0, "MultiPoint", 6, 1), (1, "MultiLineString", 33, 0), (2, "MultiSurface", 232, 0), (3, "CompositeSurface", 222, 1), (4, "Solid", 2222, 0), (5, "MultiSolid", 22122, 0), (6, "CompositeSolid", 21222, 0)) for v in (1, 2)]
        + [J("feature", "boundaries", (t, d, 1, 0), (1,), 1500, T, bounds=f"type {t}, up to {d} parts per level") for (t, d) in ((1, 55), (2, 333), (2, 244), (4, 2223), (4, 2232), (5, 22212), (6, 22221), (5, 32122))]
        + [J("feature", "several", (3, 1), (1,), 200, bounds="3 geometries in two objects")],
        bounds="geometries of every type with up to 2 or 3 parts per level (any nesting of those sizes) and any vertex indices, any level of detail of up to 3 characters; up to 3 geometries; read with and without seeking",
        outside="wider geometries; empty parts (rings, surfaces or shells without elements)",
    ),
    "P10": dict(
        jobs=[J("feature", "semantics", (t, d, 1, 0), (1,), 300, bounds=f"type {t}, up to {d} parts per level") for (t, d) in ((0, 3), (1, 2), (2, 3), (3, 2), (4, 22), (5, 211), (6, 121), (5, 222))]
        + [J("feature", "semantics", (2, 1, v, 1), (1,), 200, bounds="every standard surface type and an extension") for v in (1, 2)]
        + [J("feature", "semantics", (t, d, 1, 0), (1,), 2000, T, bounds=f"type {t}, up to {d} parts per level") for (t, d) in ((2, 4), (4, 23), (4, 32), (6, 222), (5, 232))],
        bounds="geometries of every type with up to 2 (thorough: 3) surfaces per shell, each with any or no semantic surface; one or two semantic surfaces of any standard type or an extension, with any parent and up to two children",
        outside="attributes of semantic surfaces (P13), more surfaces",
    ),
    "P11": dict(
        jobs=[J("feature", "materials", (t, d, 1, n), (1,), 200, bounds=f"type {t}, up to {d} parts per level, {n} theme(s)") for (t, d, n) in ((2, 3, 1), (3, 2, 2), (4, 22, 1), (4, 22, 2), (5, 222, 1), (6, 212, 1))]
        + [J("feature", "textures", (t, d, 1, n), (1,), 300, bounds=f"type {t}, up to {d} parts per level, {n} theme(s)") for (t, d, n) in ((2, 222, 1), (3, 212, 2), (4, 2122, 1), (5, 22121, 1), (6, 12112, 1))]
        + [J("feature", "materials", (t, d, 1, n), (1,), 2000, T, bounds=f"type {t}, up to {d} parts per level, {n} theme(s)") for (t, d, n) in ((4, 33, 2), (5, 222, 2), (2, 5, 2))]
        + [J("feature", "textures", (t, d, 1, n), (1,), 2000, T, bounds=f"type {t}, up to {d} parts per level, {n} theme(s)") for (t, d, n) in ((4, 2222, 1), (2, 333, 1), (5, 22212, 1))],
        bounds="geometries of surfaces and solids with up to 2 or 3 parts per level; one or two themes, one material for all or one per surface, any or no material and texture indices",
        outside="the index 2^32-1, which stands for none; more themes",
    ),
    "P12": dict(
        jobs=[J("feature", "object", (0, v), (1,), 100, bounds="every standard city object type and an extension") for v in (1, 2)]
        + [J("feature", "object", (1, 1), (1,), 100, bounds="any extent"), J("feature", "object", (2, 1), (1,), 200, bounds="up to two parents, children and roles of up to 2 characters each")]
        + [J("feature", "object", (3, v, 3), (1,), 100, bounds="feature ids of up to 3 characters, up to 3 vertices of any 32 bit coordinates") for v in (1, 2, 5, 6)]
        + [J("feature", "several", (k, v), (1,), 200, bounds=f"{k} geometries, instances of templates among them, in two objects") for k in (2, 3) for v in (1, 2)]
        + [J("feature", "appearance", (0, 1, 1), (1,), 100, bounds="a material with any of its fields"), J("feature", "appearance", (1, 1, 1), (1,), 100, bounds="a texture with any of its fields"), J("feature", "appearance", (2, 1), (1,), 100, bounds="texture vertices and default themes"), J("feature", "appearance", (2, 2), (1,), 100)]
        + [J("feature", "appearance", (0, 1, 2), (1,), 1500, T, bounds="two materials"), J("feature", "appearance", (1, 1, 2), (1,), 1500, T, bounds="two textures"), J("feature", "object", (3, 1, 8), (1,), 300, T, bounds="up to 8 vertices"), J("feature", "several", (4, 1), (1,), 600, T)],
        bounds="every type of city object, any extent, up to 2 relations of each kind with names of up to 2 characters, ids of up to 3 characters, up to 3 vertices, up to 3 geometries or instances in two objects, one material or texture with any subset of fields",
        outside="the order of instances relative to other geometries (instances come last), properties of city objects outside the standard ones, vertices beyond 32 bits",
    ),
    "P13": dict(
        jobs=[J("attr", "values", (n, v), (1,), 200, bounds=f"one object with up to {n} attributes, {MODE[v]}") for n, v in ((1, 0), (2, 1), (2, 2))]
        + [J("attr", "parts", (1, v), (1,), 200, bounds=f"attributes with parts, {MODE[v]}") for v in (0, 2)]
        + [J("attr", "mixed", (2, k, v), (1,), 200, bounds=f"two objects with values of any types, columns from {k} of them, {MODE[v]}") for k, v in ((1, 0), (2, 1), (2, 2))]
        + [J("attr", "typed", (v,), (1,), 200, bounds=f"a column of each type between two others, {MODE[v]}") for v in (0, 1, 2)]
        + [J("attr", "semantic", (n, v), (1,), 200, bounds=f"attributes of {n} semantic surface(s), {MODE[v]}") for n, v in ((1, 0), (2, 1), (1, 2))]
        + [J("attr", "values", (3, 0), (1,), 1500, T, bounds="one object with up to 3 attributes"), J("attr", "parts", (2, 1), (1,), 2000, T, bounds="attributes with parts within parts"), J("attr", "mixed", (3, 2, 0), (1,), 2000, T, bounds="three objects, columns from two of them"), J("attr", "mixed", (3, 3, 1), (1,), 2000, T, bounds="three objects, columns from all"), J("attr", "semantic", (3, 0), (1,), 2000, T, bounds="attributes of 3 semantic surfaces")],
        bounds="up to 2 (thorough: 3) attributes or objects; any boolean, any integer of 64 bits, any finite double, strings of up to 2 characters and a few longer ones, arrays and members of one (thorough: two) levels; numbers in columns of mixed types from a table of extremes and all of 8 bits; columns of every type the writer has",
        outside="longer strings and wider arrays; every number as text; names beyond three; Float columns keep 24 bits; the attributes of semantic surfaces have one set of columns for all, so that an integer beyond 2^53 is inexact where other surfaces have doubles, and one beyond 2^63 is lost where others have negative ones",
    ),
    "P14": dict(
        jobs=[J("header", e, (v,), (1,), 100, bounds=f"{w}, {HVIA[v]}") for v in HVIA for e, w in (("metadata", "version, transform, identifier, reference date, title and extent, each given or not"), ("contact", "a point of contact with any of its fields"), ("system", "a reference system"))]
        + [J("header", "templates", (1, m, v), (1,), 100, bounds=f"one geometry template, {'with' if m else 'without'} metadata, {HVIA[v]}") for v in HVIA for m in (0, 1)]
        + [J("header", "appearance", (m, v), (1,), 100, bounds=f"an appearance with any of its parts, {'with' if m else 'without'} metadata, {HVIA[v]}") for v in HVIA for m in (0, 1)]
        + [J("header", "extensions", (), (1,), 100, bounds="up to two extensions"), J("header", "columns", (), (1,), 100, bounds="columns of every type")]
        + [J("header", "templates", (2, 1, v), (1,), 3000, T, bounds=f"two geometry templates, {HVIA[v]}") for v in HVIA],
        bounds="any subset of the fields, strings of up to 2 characters, any finite doubles; one (thorough: two) geometry templates with boundaries, materials and textures; every column type",
        outside="fetching extensions from the network when writing; the base URL of a reference system (not stored); the geometric contents of templates beyond the shapes of P09 to P11",
    ),
    "P15": dict(
        jobs=[J("file", "all", (2, m, s, a, 3, c), (1,), 200, bounds=f"up to 2 features, {'with' if s else 'no'} spatial index, {'with' if a else 'no'} attribute index, {MODE[m]}") for m in MODE for (s, a, c) in ((1, 1, 0), (1, 0, 1), (0, 1, 1), (0, 0, 0))]
        + [J("file", "all", (3, m, 1, 1, 3, 0), (1,), 200, bounds=f"up to 3 features, {MODE[m]}") for m in MODE]
        + [J("file", "far", (300000, m), (1,), 200, bounds=f"features 300000 bytes apart, {MODE[m]}") for m in MODE]
        + [J("file", "all", (4, m, 1, 1, 3, 1), (1,), 1500, T, bounds=f"up to 4 features, {MODE[m]}") for m in MODE] + [J("file", "all", (5, m, 1, 0, 2, 1), (1,), 2000, T, bounds=f"up to 5 features, {MODE[m]}") for m in MODE],
        bounds="0 to 3 (thorough: 5) features, each at one of 3 places and of symbolic content, with and without either index, read with seeking, sequentially or over range requests; features 300000 bytes apart",
        outside="more features, faults of the transport",
    ),
    "P16": dict(
        jobs=[J("file", "space", (n, m, k, a, 3), (1, 2), 200, bounds=f"{n} features at any of 3 places, any {'point' if k else 'box'}, {'with' if a else 'no'} attribute index, {MODE[m]}") for m in MODE for (n, k, a) in ((2, 0, 1), (3, 0, 0), (2, 1, 0), (2, 1, 1))]
        + [J("file", "near", (2, m, a, 1), (1,), 200, bounds=f"the nearest of 2 features, {MODE[m]}") for m in MODE for a in (0, 1)]
        + [J("file", "far", (300000, m), (1,), 200, bounds=f"features 300000 bytes apart, {MODE[m]}") for m in MODE]
        + [J("file", "refused", (m,), (1,), 100, bounds=f"queries without an index, {MODE[m]}") for m in MODE]
        + [J("file", "space", (4, m, k, 1, 2), (1, 2), 2000, T, bounds=f"4 features at any of 2 places, {MODE[m]}") for m in MODE for k in (0, 1)] + [J("file", "near", (n, m, 1, p), (1,), 2000, T, bounds=f"the nearest of {n} features, {MODE[m]}") for m in MODE for n, p in ((2, 2), (3, 1))],
        bounds="2 or 3 (thorough: 4) features at any of 3 places, any box or point; the nearest of 2 (thorough: 3); features 300000 bytes apart",
        outside="more features (P06 covers the index itself), faults of the transport",
    ),
    "P17": dict(
        jobs=attribute_jobs() + [J("file", "refused", (m,), (1,), 100, bounds=f"queries without an index, {MODE[m]}") for m in MODE],
        bounds="2 (thorough: 3) features with any value of any indexable type (strings of up to 2 characters, dates from a table), or none; any operator and operand; one or three indices; one or two conditions; with and without a spatial index",
        outside="more features (P03 covers the index itself), strings which agree in their first 50 bytes (they are one key), NaN",
    ),
    "P18": dict(
        jobs=fault_jobs(),
        bounds="files of 3 features (2 for changed bytes) with neither, one or both indices; every length to which they can be cut; every call of a source or destination failing, interrupted or transferring 1 to 8 bytes; every byte of header, indices and features replaced by every other value",
        outside="damage of several bytes at once; changed bytes that ask for more than 256 MB of memory; panics on bytes that the format's verifier accepts (indices of columns or vertices out of range); servers that answer with wrong bytes",
    ),
    "P19": dict(
        jobs=cli_jobs(),
        bounds="texts of up to 2 features of up to 2 vertices (3 with a box) with attributes, a geometry, semantics and two objects, numbers of 1 or 2 digits, any box of 1 or 2 digits, every choice of the options for indices and extent; every length to which a text or a file can be cut; every size at which a disk is full; 1001 features of which the last is the solver's",
        outside="cbor and bson output (other libraries' work); the printed form of fractions of the solver's choice; boxes with fractions (thorough: one coordinate); wrong options",
    ),
}
