//! Native implementation of the harness primitives: a recorded assignment is
//! read back so that a path of the symbolic executor can be replayed in the
//! real, compiled code.
//!   SYM_VALS    file of decimal u64, one per line, in creation order
//!   SYM_PARAMS  comma separated parameters
use std::io::Write;
use std::sync::Mutex;

struct Rt {
    vals: Vec<u64>,
    next: usize,
    params: Vec<u64>,
}
static RT: Mutex<Option<Rt>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = RT.lock().unwrap();
    let rt = g.get_or_insert_with(|| {
        let nums = |s: String, sep: char| -> Vec<u64> {
            s.split(sep).map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
        };
        Rt {
            vals: std::env::var("SYM_VALS").ok().map(|p| nums(std::fs::read_to_string(p).unwrap(), '\n')).unwrap_or_default(),
            next: 0,
            params: nums(std::env::var("SYM_PARAMS").unwrap_or_default(), ','),
        }
    });
    f(rt)
}
fn line(s: String) {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}
fn quit(code: i32) -> ! {
    std::process::exit(code)
}
fn val() -> u64 {
    with(|r| {
        let v = r.vals.get(r.next).copied();
        r.next += 1;
        v
    })
    .unwrap_or(0)
}
#[no_mangle]
pub extern "C" fn sym_val8() -> u8 {
    val() as u8
}
#[no_mangle]
pub extern "C" fn sym_val16() -> u16 {
    val() as u16
}
#[no_mangle]
pub extern "C" fn sym_val32() -> u32 {
    val() as u32
}
#[no_mangle]
pub extern "C" fn sym_val64() -> u64 {
    val()
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        line("@@ASSUME".into());
        quit(71)
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_fail(p: *const u8, n: usize) -> ! {
    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
    line(format!("@@FAIL {s}"));
    quit(70)
}
#[no_mangle]
pub extern "C" fn sym_reach(k: u32) {
    line(format!("@@REACH {k}"))
}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    line(format!("@@OBS {v}"))
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_param(i: u32, d: u64) -> u64 {
    with(|r| r.params.get(i as usize).copied().unwrap_or(d))
}
#[no_mangle]
pub extern "C" fn sym_is_symbolic() -> bool {
    false
}
#[no_mangle]
pub extern "C" fn sym_may_panic(on: bool) {
    if on {
        std::panic::set_hook(Box::new(|_| {
            line("@@DONE".into());
            quit(0)
        }))
    } else {
        let _ = std::panic::take_hook();
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_note(p: *const u8, n: usize, v: u64) {
    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
    line(format!("@@NOTE {s} {v}"));
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
static SCRATCH: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
static SAVED: Mutex<i32> = Mutex::new(-1);
extern "C" fn remove_scratch() {
    if let Some(d) = SCRATCH.lock().ok().and_then(|mut g| g.take()) {
        let _ = std::env::set_current_dir("/");
        for f in ["in", "out", "back", "stdout", "again"] {
            let _ = std::fs::remove_file(d.join(f));
        }
        let _ = std::fs::remove_dir(d);
    }
}
/// a directory of its own, removed at the end with the files of the names known here
#[no_mangle]
pub extern "C" fn sym_scratch() {
    extern "C" {
        fn atexit(f: extern "C" fn()) -> i32;
    }
    let d = std::env::temp_dir().join(format!("fcb_verif_{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    *SCRATCH.lock().unwrap() = Some(d);
    unsafe { atexit(remove_scratch) };
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        h(i);
        remove_scratch();
    }));
}
#[no_mangle]
pub extern "C" fn sym_stdout(on: bool) {
    use std::os::fd::AsRawFd;
    let mut s = SAVED.lock().unwrap();
    unsafe {
        if on {
            let f = std::fs::File::create("stdout").unwrap();
            *s = dup(1);
            dup2(f.as_raw_fd(), 1);
        } else {
            dup2(*s, 1);
            close(*s);
        }
    }
}

#[no_mangle]
pub extern "C" fn sym_stdin() {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open("in").unwrap();
    unsafe { dup2(f.as_raw_fd(), 0) };
}
#[no_mangle]
pub extern "C" fn sym_limit(n: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    unsafe {
        signal(25, 1);
        setrlimit(1, &[n, u64::MAX]);
    }
}
