//! Primitives and helpers shared by every harness.
pub mod sym {
    extern "C" {
        fn sym_val8() -> u8;
        fn sym_val16() -> u16;
        fn sym_val32() -> u32;
        fn sym_val64() -> u64;
        fn sym_assume(c: bool);
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_reach(k: u32);
        fn sym_observe(v: u64);
        fn sym_concretize(v: u64) -> u64;
        fn sym_param(i: u32, d: u64) -> u64;
        fn sym_is_symbolic() -> bool;
        fn sym_may_panic(on: bool);
        fn sym_stdout(on: bool);
        fn sym_scratch();
        fn sym_stdin();
        fn sym_limit(n: u64);
        fn sym_note(p: *const u8, n: usize, v: u64);
    }
    #[inline(always)]
    pub fn u8() -> u8 {
        unsafe { sym_val8() }
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        unsafe { sym_val16() }
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        unsafe { sym_val32() }
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        unsafe { sym_val64() }
    }
    #[inline(always)]
    pub fn i8() -> i8 {
        u8() as i8
    }
    #[inline(always)]
    pub fn i16() -> i16 {
        u16() as i16
    }
    #[inline(always)]
    pub fn i32() -> i32 {
        u32() as i32
    }
    #[inline(always)]
    pub fn i64() -> i64 {
        u64() as i64
    }
    #[inline(always)]
    pub fn bool() -> bool {
        u8() & 1 == 1
    }
    /// any f64 but NaN
    #[inline(always)]
    pub fn f64() -> f64 {
        let b = u64();
        assume(b & 0x7fff_ffff_ffff_ffff <= 0x7ff0_0000_0000_0000);
        f64::from_bits(b)
    }
    /// any finite f64
    #[inline(always)]
    pub fn finite() -> f64 {
        let b = u64();
        assume(b & 0x7fff_ffff_ffff_ffff < 0x7ff0_0000_0000_0000);
        f64::from_bits(b)
    }
    #[inline(always)]
    pub fn f32() -> f32 {
        let b = u32();
        assume(b & 0x7fff_ffff <= 0x7f80_0000);
        f32::from_bits(b)
    }
    #[inline(always)]
    pub fn below(n: u64) -> u64 {
        let v = if n <= 256 { u8() as u64 } else { u64() };
        assume(v < n);
        v
    }
    /// a value below n, one path for each
    #[inline(always)]
    pub fn choose(n: u64) -> usize {
        let v = below(n);
        concretize(v) as usize
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[cold]
    #[inline(never)]
    pub fn fail(s: &str) -> ! {
        unsafe { sym_fail(s.as_ptr(), s.len()) }
    }
    #[inline(always)]
    pub fn check(c: bool, s: &str) {
        if !c {
            fail(s)
        }
    }
    #[inline(always)]
    pub fn reach(k: u32) {
        unsafe { sym_reach(k) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    #[inline(always)]
    pub fn concretize(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    #[inline(always)]
    pub fn param(i: u32, d: u64) -> u64 {
        unsafe { sym_param(i, d) }
    }
    #[inline(always)]
    pub fn is_symbolic() -> bool {
        unsafe { sym_is_symbolic() }
    }
    /// from here on a panic is an acceptable answer
    pub fn may_panic(on: bool) {
        unsafe { sym_may_panic(on) }
    }
    /// relative paths are in a directory of this run's own from here on
    pub fn scratch() {
        unsafe { sym_scratch() }
    }
    /// the standard input is the file "in" from here on
    pub fn stdin() {
        unsafe { sym_stdin() }
    }
    /// no file can grow beyond n bytes from here on
    pub fn limit(n: u64) {
        unsafe { sym_limit(n) }
    }
    /// what f prints to the standard output (no other primitive may be used in f)
    pub fn stdout<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { sym_stdout(true) }
        let r = f();
        let _ = std::io::stdout().flush();
        unsafe { sym_stdout(false) }
        (r, std::fs::read("stdout").unwrap())
    }
    pub fn note(s: &str, v: u64) {
        unsafe { sym_note(s.as_ptr(), s.len(), v) }
    }
    pub fn bytes(n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(u8());
        }
        v
    }
    /// n ASCII characters that need no escaping in JSON
    pub fn ascii(n: usize) -> String {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let c = u8();
            assume((c >= 0x20) & (c < 0x7f) & (c != b'"') & (c != b'\\'));
            v.push(c);
        }
        unsafe { String::from_utf8_unchecked(v) }
    }
}

/// Defines the entry points of a harness binary and a main that runs one of them natively.
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub fn $name() $body )*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            $( if a == stringify!($name) { $name(); println!("@@DONE"); return; } )*
            eprintln!("no entry {a}");
            std::process::exit(73)
        }
    };
}

/// A range client over bytes in memory (short answer at the end of the file, 416 beyond it).
pub mod net {
    use bytes::Bytes;
    use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError, Result};
    pub struct Mem {
        pub data: Bytes,
    }
    #[async_trait::async_trait]
    impl AsyncHttpRangeClient for Mem {
        async fn get_range(&self, _url: &str, range: &str) -> Result<Bytes> {
            let r = range.strip_prefix("bytes=").expect("range header");
            let (a, b) = r.split_once('-').expect("range header");
            let (a, b): (usize, usize) = (a.parse().expect("start"), b.parse().expect("end"));
            crate::sym::check(a <= b, "a range request has start <= end");
            if a >= self.data.len() {
                return Err(HttpError::HttpStatus(416));
            }
            Ok(self.data.slice(a..(b + 1).min(self.data.len())))
        }
        async fn head_response_header(&self, _url: &str, _header: &str) -> Result<Option<String>> {
            Ok(None)
        }
    }
    pub fn client(data: Vec<u8>) -> AsyncBufferedHttpRangeClient<Mem> {
        AsyncBufferedHttpRangeClient::with(Mem { data: Bytes::from(data) }, "mem")
    }
    /// Nothing here ever waits, so a future is finished after one poll.
    pub fn now<F: std::future::Future>(f: F) -> F::Output {
        use std::task::*;
        fn c(_: *const ()) -> RawWaker {
            RawWaker::new(std::ptr::null(), &VT)
        }
        fn n(_: *const ()) {}
        static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
        let w = unsafe { Waker::from_raw(c(std::ptr::null())) };
        let mut cx = Context::from_waker(&w);
        let mut f = Box::pin(f);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => crate::sym::fail("a future that cannot wait returned Pending"),
        }
    }
}

/// What several harnesses draw and compare.
pub mod eq {
    use crate::sym;
    use cjseq::NestedArray;
    pub fn maybe<T>(f: impl FnOnce() -> T) -> Option<T> {
        if sym::choose(2) == 1 {
            Some(f())
        } else {
            None
        }
    }
    pub fn text(max: u64) -> String {
        let n = sym::choose(max) + 1;
        sym::ascii(n)
    }
    pub fn same_opt<T>(a: &Option<T>, b: &Option<T>, what: &str, eq: &dyn Fn(&T, &T)) {
        match (a, b) {
            (None, None) => {}
            (Some(x), Some(y)) => eq(x, y),
            _ => sym::fail(what),
        }
    }
    pub fn same_str(a: &str, b: &str, what: &str) {
        sym::check(a.len() == b.len(), what);
        for (x, y) in a.bytes().zip(b.bytes()) {
            sym::check(x == y, what);
        }
    }
    pub fn same_f64s(a: &[f64], b: &[f64], what: &str) {
        sym::check(a.len() == b.len(), what);
        for (x, y) in a.iter().zip(b) {
            sym::check(x.to_bits() == y.to_bits(), what);
        }
    }
    pub fn same_strs(a: &[String], b: &[String], what: &str) {
        sym::check(a.len() == b.len(), what);
        for (x, y) in a.iter().zip(b) {
            same_str(x, y, what);
        }
    }
    pub fn same<T>(a: &NestedArray<T>, b: &NestedArray<T>, what: &str, eq: &dyn Fn(&T, &T) -> bool) {
        match (a, b) {
            (NestedArray::Indices(x), NestedArray::Indices(y)) => {
                sym::check(x.len() == y.len(), what);
                for (p, q) in x.iter().zip(y) {
                    sym::check(eq(p, q), what);
                }
            }
            (NestedArray::Nested(x), NestedArray::Nested(y)) => {
                sym::check(x.len() == y.len(), what);
                for (p, q) in x.iter().zip(y) {
                    same(p, q, what, eq);
                }
            }
            _ => sym::fail(what),
        }
    }
}

/// Appearances.
pub mod looks {
    use crate::eq::*;
    use crate::sym;
    use cjseq::{Appearance, MaterialObject, TextureObject};
    pub fn same_appearance(a: &Appearance, b: &Appearance) {
        same_opt(&a.materials, &b.materials, "a feature keeps its materials", &|p, q| {
            sym::check(p.len() == q.len(), "a feature keeps its materials");
            for (x, y) in p.iter().zip(q) {
                same_str(&x.name, &y.name, "a material keeps its name");
                same_num(&x.ambient_intensity, &y.ambient_intensity, "a material keeps its ambient intensity");
                same_num(&x.shininess, &y.shininess, "a material keeps its shininess");
                same_num(&x.transparency, &y.transparency, "a material keeps its transparency");
                same_opt(&x.diffuse_color, &y.diffuse_color, "a material keeps its diffuse color", &|c, d| same_f64s(c, d, "a material keeps its diffuse color"));
                same_opt(&x.emissive_color, &y.emissive_color, "a material keeps its emissive color", &|c, d| same_f64s(c, d, "a material keeps its emissive color"));
                same_opt(&x.specular_color, &y.specular_color, "a material keeps its specular color", &|c, d| same_f64s(c, d, "a material keeps its specular color"));
                sym::check(x.is_smooth == y.is_smooth, "a material keeps its smoothness");
            }
        });
        same_opt(&a.textures, &b.textures, "a feature keeps its textures", &|p, q| {
            sym::check(p.len() == q.len(), "a feature keeps its textures");
            for (x, y) in p.iter().zip(q) {
                same_str(&x.image, &y.image, "a texture keeps its image");
                sym::check(x.texture_format == y.texture_format, "a texture keeps its format");
                sym::check(x.wrap_mode == y.wrap_mode, "a texture keeps its wrap mode");
                sym::check(x.texture_type == y.texture_type, "a texture keeps its type");
                same_opt(&x.border_color, &y.border_color, "a texture keeps its border color", &|c, d| same_f64s(c, d, "a texture keeps its border color"));
            }
        });
        same_opt(&a.vertices_texture, &b.vertices_texture, "a feature keeps its texture vertices", &|p, q| {
            sym::check(p.len() == q.len(), "a feature keeps its texture vertices");
            for (x, y) in p.iter().zip(q) {
                same_f64s(x, y, "a feature keeps its texture vertices");
            }
        });
        same_opt(&a.default_theme_texture, &b.default_theme_texture, "a feature keeps its default texture theme", &|p, q| same_str(p, q, "a feature keeps its default texture theme"));
        same_opt(&a.default_theme_material, &b.default_theme_material, "a feature keeps its default material theme", &|p, q| same_str(p, q, "a feature keeps its default material theme"));
    }
    pub fn material() -> MaterialObject {
        MaterialObject {
            name: text(1),
            ambient_intensity: maybe(sym::f64),
            diffuse_color: maybe(|| [sym::f64(), sym::f64(), sym::f64()]),
            emissive_color: maybe(|| [sym::f64(), sym::f64(), sym::f64()]),
            specular_color: maybe(|| [sym::f64(), sym::f64(), sym::f64()]),
            shininess: maybe(sym::f64),
            transparency: maybe(sym::f64),
            is_smooth: maybe(sym::bool),
        }
    }
    pub fn texture() -> TextureObject {
        use cjseq::{TextFormat::*, TextType, WrapMode};
        TextureObject {
            texture_format: if sym::choose(2) == 0 { Png } else { Jpg },
            image: text(2),
            wrap_mode: maybe(|| match sym::choose(5) {
                0 => WrapMode::None,
                1 => WrapMode::Wrap,
                2 => WrapMode::Mirror,
                3 => WrapMode::Clamp,
                _ => WrapMode::Border,
            }),
            texture_type: maybe(|| match sym::choose(3) {
                0 => TextType::Unknown,
                1 => TextType::Specific,
                _ => TextType::Typical,
            }),
            border_color: maybe(|| [sym::f64(), sym::f64(), sym::f64(), sym::f64()]),
        }
    }
    pub fn same_num(a: &Option<f64>, b: &Option<f64>, what: &str) {
        same_opt(a, b, what, &|x, y| sym::check(x.to_bits() == y.to_bits(), what));
    }
}
