// The spatial index (packed Hilbert R-tree): searches in memory / through a
// reader / over range requests, structure, serialisation, nearest, sorting.
use fcb_core::packed_rtree::http::{HttpRange, HttpSearchResultItem};
use fcb_core::{calc_extent, hilbert_sort, NodeItem, PackedRTree, SpatialQuery};
use harness::{entries, net, sym};
use std::io::{Cursor, Seek, SeekFrom};

/// How coordinates are drawn: 0 any f64 but NaN, 1 integers of 7 bits, 2 as 0 but only the
/// x direction varies.
fn coord(kind: u64) -> f64 {
    match kind {
        1 => (sym::i8() >> 2) as f64,
        3 => (sym::i8() >> 4) as f64,
        4 => sym::i16() as f64,
        6 => (sym::i8() >> 5) as f64,
        _ => sym::f64(),
    }
}
fn boxes(n: usize, kind: u64) -> Vec<NodeItem> {
    let mut v = Vec::new();
    // offsets as the writer makes them: increasing from zero
    let mut off = 0u64;
    for _ in 0..n {
        let (x0, y0, x1, y1) = if kind == 2 {
            let (a, b) = (coord(0), coord(0));
            (a, 0.0, b, 1.0)
        } else if kind == 5 {
            let (a, b) = (coord(3), coord(3));
            (a, 0.0, b, 0.0)
        } else {
            (coord(kind), coord(kind), coord(kind), coord(kind))
        };
        v.push(NodeItem { min_x: x0, min_y: y0, max_x: x1, max_y: y1, offset: off });
        let len = sym::u32() as u64;
        sym::assume((len > 0) & (len < 1 << 30));
        off += len;
    }
    v
}
/// what the search has to answer, straight from the meaning of the boxes
fn touches(b: &NodeItem, q: &(f64, f64, f64, f64)) -> bool {
    (b.max_x >= q.0) & (b.max_y >= q.1) & (b.min_x <= q.2) & (b.min_y <= q.3)
}

const PAD: usize = 40;
const ATTR: usize = 24;

struct Tree {
    items: Vec<NodeItem>,
    n: usize,
    b: u16,
    tree: Option<PackedRTree>,
    file: Vec<u8>,
    len: usize,
}
fn build(n: usize, b: u16, items: Vec<NodeItem>) -> Tree {
    let ext = calc_extent(&items);
    let tree = match PackedRTree::build(&items, &ext, b) {
        Ok(t) => t,
        Err(_) => sym::fail("building an index fails"),
    };
    let mut file = vec![0u8; PAD];
    if tree.stream_write(&mut file).is_err() {
        sym::fail("writing an index fails");
    }
    let len = file.len() - PAD;
    sym::check(len == tree.size(), "the index is as long as it says");
    sym::check(len == PackedRTree::index_size(n, b), "the length of an index follows from the number of items");
    Tree { items, n, b, tree: Some(tree), file, len }
}

/// (leaf position, offset) of every hit, through one of the access paths
fn search(t: &Tree, backend: u64, q: SpatialQuery) -> Vec<(usize, usize)> {
    match backend {
        0 | 3 | 4 => {
            let r = match backend {
                0 => t.tree.as_ref().unwrap().search(q),
                3 => match PackedRTree::from_buf(&t.file[PAD..], t.n, t.b) {
                    Ok(x) => x.search(q),
                    Err(_) => sym::fail("reading an index back fails"),
                },
                _ => {
                    let mut c = net::client(t.file.clone());
                    match net::now(PackedRTree::from_http(&mut c, PAD, t.n, t.b)) {
                        Ok(x) => x.search(q),
                        Err(_) => sym::fail("reading an index over HTTP fails"),
                    }
                }
            };
            match r {
                Ok(v) => v.iter().map(|x| (x.index, x.offset)).collect(),
                Err(_) => sym::fail("a search fails"),
            }
        }
        1 => {
            let mut c = Cursor::new(&t.file);
            let _ = c.seek(SeekFrom::Start(PAD as u64));
            let r = match PackedRTree::stream_search(&mut c, t.n, t.b, q) {
                Ok(v) => v.iter().map(|x| (x.index, x.offset)).collect(),
                Err(_) => sym::fail("a search through a reader fails"),
            };
            sym::check(c.position() as usize == PAD + t.len, "a search leaves the reader behind the index");
            r
        }
        _ => {
            let mut file = t.file.clone();
            file.extend_from_slice(&[0u8; ATTR + 16]);
            let mut c = net::client(file);
            let threshold = sym::param(5, 0) as usize;
            let r: Vec<HttpSearchResultItem> =
                match net::now(PackedRTree::http_stream_search(&mut c, PAD, ATTR, t.n, t.b, q, threshold)) {
                    Ok(v) => v,
                    Err(_) => sym::fail("a search over HTTP fails"),
                };
            let base = PAD + ATTR + t.len;
            r.iter()
                .map(|x| {
                    let start = x.range.start();
                    sym::check(start >= base, "a hit lies in the feature section");
                    let off = start - base;
                    // which item it is: the (strictly increasing) offsets say so
                    let mut i = t.n;
                    for k in 0..t.n {
                        if t.items[k].offset as usize == off {
                            i = k;
                        }
                    }
                    sym::check(i < t.n, "a hit is the offset of an item");
                    match &x.range {
                        HttpRange::Range(r) => {
                            sym::check(i + 1 < t.n, "only the last feature is open ended");
                            sym::check(r.end == base + t.items[i + 1].offset as usize, "the range of a hit ends where the next feature starts");
                        }
                        HttpRange::RangeFrom(_) => sym::check(i + 1 == t.n, "only the last feature is open ended"),
                    }
                    (i, off)
                })
                .collect()
        }
    }
}
fn judge(t: &Tree, hits: &[(usize, usize)], q: &(f64, f64, f64, f64)) {
    let mut seen = vec![0u32; t.n];
    for &(i, off) in hits {
        sym::check(i < t.n, "a hit is one of the items");
        sym::check(off == t.items[i].offset as usize, "a hit carries the offset of its item");
        seen[i] += 1;
    }
    for i in 0..t.n {
        sym::check(seen[i] <= 1, "an item is found once");
        let want = touches(&t.items[i], q);
        if seen[i] == 1 {
            sym::check(want, "an item found does meet the query");
        } else {
            sym::check(!want, "an item that meets the query is found");
        }
        sym::observe(seen[i] as u64);
    }
    if hits.is_empty() {
        sym::reach(2)
    } else {
        sym::reach(1)
    }
}

entries! {
    /// n, branching factor, backend, kind of coordinates, 0 box 1 point, request threshold
    fn find() {
        let n = sym::param(0, 3) as usize;
        let b = sym::param(1, 2) as u16;
        let backend = sym::param(2, 0);
        let kind = sym::param(3, 0);
        let t = build(n, b, boxes(n, kind));
        if sym::param(4, 0) == 0 {
            let q = if kind == 2 {
                let (a, b) = (coord(0), coord(0));
                (a, 0.25, b, 0.5)
            } else if kind == 5 {
                (coord(4), -1.0, coord(4), 1.0)
            } else {
                (coord(kind), coord(kind), coord(kind), coord(kind))
            };
            let h = search(&t, backend, SpatialQuery::BBox(q.0, q.1, q.2, q.3));
            judge(&t, &h, &q);
        } else {
            let (x, y) = match kind {
                2 => (coord(0), 0.5),
                5 => (coord(4), 0.0),
                _ => (coord(kind), coord(kind)),
            };
            let h = search(&t, backend, SpatialQuery::PointIntersects(x, y));
            judge(&t, &h, &(x, y, x, y));
        }
    }

    /// n, branching factor, backend, kind: the nearest item by distance of the centres
    fn nearest() {
        let n = sym::param(0, 3) as usize;
        let b = sym::param(1, 2) as u16;
        let backend = sym::param(2, 0);
        let kind = sym::param(3, 3);
        let mut items = boxes(n, kind);
        for i in &items {
            sym::assume((i.min_x <= i.max_x) & (i.min_y <= i.max_y));
        }
        // one feature may have no vertices, and so an empty box
        if sym::param(4, 0) == 1 {
            let e = sym::choose(n as u64);
            items[e] = NodeItem::create(items[e].offset);
        }
        let t = build(n, b, items);
        let (x, y) = if kind == 5 { (coord(3), 0.0) } else { (coord(kind), coord(kind)) };
        let h = search(&t, backend, SpatialQuery::PointNearest(x, y));
        sym::check(h.len() == 1, "there is one nearest item");
        let (i, off) = h[0];
        sym::check(i < t.n, "the nearest item is one of the items");
        sym::check(off == t.items[i].offset as usize, "the nearest item carries its offset");
        let d = |k: usize| {
            let c = &t.items[k];
            if c.min_x == f64::INFINITY {
                return f64::INFINITY;
            }
            let (dx, dy) = (x - (c.min_x + c.max_x) / 2.0, y - (c.min_y + c.max_y) / 2.0);
            dx * dx + dy * dy
        };
        let best = d(i);
        for k in 0..t.n {
            if k != i {
                sym::check(best <= d(k), "no item is nearer than the nearest");
            }
        }
        sym::observe(i as u64);
        sym::reach(1);
        if i > 0 {
            sym::reach(2);
        }
    }

    /// n, branching factor, kind: the nodes written
    fn structure() {
        let n = sym::param(0, 3) as usize;
        let b = sym::param(1, 2) as u16;
        let t = build(n, b, boxes(n, sym::param(2, 0)));
        // an independent account of the layout: levels from the root down, leaves last
        let mut sizes = vec![n];
        loop {
            let l = (*sizes.last().unwrap() + b as usize - 1) / b as usize;
            sizes.push(l);
            if l == 1 {
                break;
            }
        }
        let total: usize = sizes.iter().sum();
        sym::check(t.len == total * 40, "a node takes 40 bytes");
        let f = |i: usize, k: usize| {
            let p = PAD + i * 40 + k * 8;
            f64::from_bits(u64::from_le_bytes(t.file[p..p + 8].try_into().unwrap()))
        };
        let off = |i: usize| f(i, 4).to_bits();
        let leaf0 = total - n;
        for i in 0..n {
            let m = &t.items[i];
            for (k, v) in [m.min_x, m.min_y, m.max_x, m.max_y].iter().enumerate() {
                sym::check(f(leaf0 + i, k).to_bits() == v.to_bits(), "a leaf is written as it was given");
            }
            sym::check(off(leaf0 + i) == m.offset, "a leaf keeps its offset");
        }
        let mut child = total;
        for l in 1..sizes.len() {
            child -= sizes[l - 1];
            let parent = child - sizes[l];
            for p in 0..sizes[l] {
                let (from, to) = (child + p * b as usize, (child + (p + 1) * b as usize).min(child + sizes[l - 1]));
                sym::check(off(parent + p) == from as u64, "a node points at its first child");
                let mut tight = [false; 4];
                for c in from..to {
                    for k in 0..2 {
                        sym::check(f(parent + p, k) <= f(c, k), "a node covers its children");
                        sym::check(f(parent + p, k + 2) >= f(c, k + 2), "a node covers its children");
                        tight[k] |= f(parent + p, k) == f(c, k);
                        tight[k + 2] |= f(parent + p, k + 2) == f(c, k + 2);
                    }
                }
                for k in 0..4 {
                    sym::check(tight[k], "a node is no larger than its children");
                }
            }
        }
        let e = t.tree.as_ref().unwrap().extent();
        let given = calc_extent(&t.items);
        for (k, (a, c)) in [(e.min_x, given.min_x), (e.min_y, given.min_y), (e.max_x, given.max_x), (e.max_y, given.max_y)].iter().enumerate() {
            sym::check(*a == *c, "the extent is kept");
            sym::check(*c == f(0, k), "the extent is the root");
        }
        // read back and written again: the same bytes
        match PackedRTree::from_buf(&t.file[PAD..], n, b) {
            Ok(r) => {
                let mut again = Vec::new();
                sym::check(r.stream_write(&mut again).is_ok(), "writing an index read back");
                sym::check(again.len() == t.len, "an index read back is as long as before");
                for (x, y) in again.chunks(8).zip(t.file[PAD..].chunks(8)) {
                    sym::check(x == y, "an index read back is the index written");
                }
                let e2 = r.extent();
                sym::check((e2.min_x == e.min_x) & (e2.min_y == e.min_y) & (e2.max_x == e.max_x) & (e2.max_y == e.max_y), "the extent is read back");
            }
            Err(_) => sym::fail("reading an index back fails"),
        }
        sym::reach(1);
    }

    /// any number of items below the bound: the size of an index
    /// node size, log2 of the limit, or 0 and log2 of a number around which the length lies
    fn size() {
        let b = sym::param(0, 16) as u16;
        let n = if sym::param(1, 20) == 0 {
            (1 << sym::param(2, 24)) - 4 + sym::choose(8)
        } else {
            let n = sym::u32() as usize;
            sym::assume((n > 0) & (n < 1 << sym::param(1, 20)));
            n
        };
        let got = PackedRTree::index_size(n, b);
        // a level holds ceil(n / b^k) nodes
        let (mut want, mut p) = (n, 1usize);
        loop {
            p *= b as usize;
            want += (n + p - 1) / p;
            if p >= n {
                break;
            }
        }
        sym::check(got == want * 40, "the length of an index follows from the number of items");
        sym::observe(got as u64);
        sym::reach(1);
    }

    /// sorting along the curve loses nothing, and follows the curve: n, log2 of the extent
    fn sorting() {
        let n = sym::param(0, 3) as usize;
        let items = {
            let mut v = Vec::new();
            for i in 0..n {
                let sh = 8 - sym::param(1, 4) as u32;
                let (a, b) = ((sym::u8() >> sh) << sh, (sym::u8() >> sh) << sh);
                let (a, b) = (a as f64, b as f64);
                v.push(NodeItem { min_x: a, min_y: b, max_x: a, max_y: b, offset: i as u64 });
            }
            v
        };
        let ext = NodeItem::bounds(0.0, 0.0, 256.0, 256.0);
        let mut s = items.clone();
        hilbert_sort(&mut s, &ext);
        sym::check(s.len() == n, "sorting keeps the number of items");
        let mut seen = vec![0u8; n];
        for x in &s {
            let i = sym::concretize(x.offset) as usize;
            sym::check(i < n, "sorting keeps the items");
            seen[i] += 1;
            sym::check((x.min_x == items[i].min_x) & (x.min_y == items[i].min_y), "sorting keeps the boxes");
        }
        for c in seen {
            sym::check(c == 1, "sorting keeps every item once");
        }
        // the curve, step by step (Wikipedia's xy2d on a 16 bit grid)
        let d = |x: &NodeItem| {
            let (mut px, mut py) = ((65535.0 * x.min_x / 256.0).floor() as u32, (65535.0 * x.min_y / 256.0).floor() as u32);
            let mut d = 0u64;
            let mut s = 1u32 << 15;
            while s > 0 {
                let (rx, ry) = (((px & s) != 0) as u32, ((py & s) != 0) as u32);
                d += (s as u64) * (s as u64) * ((3 * rx) ^ ry) as u64;
                // rotate without a branch
                let flip = 0u32.wrapping_sub((ry == 0) as u32 & rx);
                px ^= flip & 0xffff;
                py ^= flip & 0xffff;
                let swap = 0u32.wrapping_sub((ry == 0) as u32);
                let t = (px ^ py) & swap;
                px ^= t;
                py ^= t;
                s >>= 1;
            }
            d
        };
        for w in s.windows(2) {
            sym::check(d(&w[0]) >= d(&w[1]), "sorting follows the Hilbert curve");
        }
        sym::reach(1);
    }
}
