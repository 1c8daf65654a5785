//! Runs a harness natively on recorded inputs.
//! usage: replay HARNESS FILE...   each file: one number per line
//! prints per file: "BEGIN", "OUT <hex>"*, then "END done|refused|assume|panic <msg>|assert <msg>"
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
}
static PARAMS: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(vec![]);
static PANIC_OK: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicU64 = AtomicU64::new(1_700_000_000);
static USE_CLOCK: AtomicBool = AtomicBool::new(false);

struct Stop(&'static str, String);

fn next() -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied()
    })
    .unwrap_or_else(|| std::panic::panic_any(Stop("short", String::new())))
}
unsafe fn st<'a>(p: *const u8, n: usize) -> &'a [u8] {
    std::slice::from_raw_parts(p, n)
}
#[no_mangle]
pub extern "C-unwind" fn sx_byte(_p: *const u8, _n: usize) -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C-unwind" fn sx_range(_lo: u64, _hi: u64) -> u64 {
    next()
}
#[no_mangle]
pub extern "C-unwind" fn sx_choose(_n: u64) -> u64 {
    next()
}
#[no_mangle]
pub extern "C-unwind" fn sx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        std::panic::panic_any(Stop("assume", String::new()))
    }
}
#[no_mangle]
pub extern "C-unwind" fn sx_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = String::from_utf8_lossy(unsafe { st(p, n) }).to_string();
        std::panic::panic_any(Stop("assert", m))
    }
}
#[no_mangle]
pub extern "C-unwind" fn sx_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn sx_out(p: *const u8, n: usize) {
    let mut s = String::from("OUT ");
    for b in unsafe { st(p, n) } {
        s.push_str(&format!("{:02x}", b));
    }
    println!("{}", s);
}
#[no_mangle]
pub extern "C-unwind" fn sx_panic_ok(b: bool) {
    PANIC_OK.store(b, Ordering::SeqCst)
}
#[no_mangle]
pub extern "C-unwind" fn sx_file(p: *const u8, n: usize, q: *const u8, m: usize) {
    let name = String::from_utf8_lossy(unsafe { st(p, n) }).to_string();
    // virtual absolute paths start with /w, the working directory of the executor
    let name = name.strip_prefix("/w/").unwrap_or(&name).to_string();
    assert!(!name.starts_with('/') && !name.contains(".."));
    if let Some((d, _)) = name.rsplit_once('/') {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(name, unsafe { st(q, m) }).unwrap();
}
#[no_mangle]
pub extern "C-unwind" fn sx_hash_mode(_n: u64) {}
#[no_mangle]
pub extern "C-unwind" fn sx_clock(s: u64) {
    CLOCK.store(s, Ordering::SeqCst);
    USE_CLOCK.store(true, Ordering::SeqCst);
}
#[no_mangle]
pub extern "C-unwind" fn sx_param(i: u64, d: u64) -> u64 {
    PARAMS.lock().unwrap().get(i as usize).copied().unwrap_or(d)
}
#[no_mangle]
pub extern "C-unwind" fn sx_live(p: *const u8, n: usize) -> bool {
    // under valgrind an invalid access is reported
    let mut x = 0u8;
    for i in 0..n {
        x ^= unsafe { std::ptr::read_volatile(p.add(i)) };
    }
    std::hint::black_box(x);
    true
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, a: i64, b: *mut Timespec) -> i64;
}
/// The clock of the process, settable by the harness.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if USE_CLOCK.load(Ordering::SeqCst) {
        (*t).s = CLOCK.load(Ordering::SeqCst) as i64;
        (*t).n = 0;
        0
    } else {
        syscall(228, id as i64, t) as i32
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(h) = lsx_harness::HARNESSES.iter().chain(lsx_harness::PROGRAM).find(|h| h.0 == args[1]) else {
        eprintln!("no harness {}", args[1]);
        std::process::exit(9);
    };
    std::panic::set_hook(Box::new(|_| {}));
    for f in &args[2..] {
        let text = std::fs::read_to_string(f).expect("replay file");
        let vals: Vec<u64> = text.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).map(|l| l.trim().parse().unwrap()).collect();
        *PARAMS.lock().unwrap() = text
            .lines()
            .find_map(|l| l.strip_prefix("#params "))
            .map(|l| l.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect())
            .unwrap_or_default();
        println!("BEGIN {}", f);
        let _ = std::io::stdout().flush();
        IN.with(|i| *i.borrow_mut() = (vals, 0));
        PANIC_OK.store(false, Ordering::SeqCst);
        USE_CLOCK.store(false, Ordering::SeqCst);
        let run = h.1;
        let r = std::panic::catch_unwind(|| run());
        let end = match r {
            Ok(()) => "done".to_string(),
            Err(e) => {
                if let Some(s) = e.downcast_ref::<Stop>() {
                    format!("{} {}", s.0, s.1)
                } else if PANIC_OK.load(Ordering::SeqCst) {
                    "refused".to_string()
                } else {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("panic {}", m.replace('\n', " "))
                }
            }
        };
        println!("END {}", end);
        let _ = std::io::stdout().flush();
    }
}
