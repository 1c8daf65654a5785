//! Interface between harnesses and the symbolic executor. The native replay binary
//! implements the same functions by reading recorded values.
pub mod raw {
    extern "C-unwind" {
        pub fn sx_byte(set: *const u8, n: usize) -> u8;
        pub fn sx_range(lo: u64, hi: u64) -> u64;
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, m: *const u8, n: usize);
        pub fn sx_cover(m: *const u8, n: usize);
        pub fn sx_out(m: *const u8, n: usize);
        pub fn sx_panic_ok(b: bool);
        pub fn sx_file(name: *const u8, n: usize, data: *const u8, m: usize);
        pub fn sx_hash_mode(n: u64);
        pub fn sx_clock(secs: u64);
        pub fn sx_live(p: *const u8, n: usize) -> bool;
        pub fn sx_param(i: u64, default: u64) -> u64;
    }
}
use raw::*;

/// One input byte out of a set.
pub fn byte(set: &[u8]) -> u8 {
    unsafe { sx_byte(set.as_ptr(), set.len()) }
}
pub fn digit() -> u8 {
    byte(b"0123456789")
}
/// An input number lo..=hi, symbolic.
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { sx_range(lo, hi) }
}
/// An input number 0..n, decided at once (one path per value).
pub fn choose(n: u64) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { sx_concretize(sx_choose(n)) as usize }
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn conc(v: u64) -> u64 {
    unsafe { sx_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn assert(c: bool, m: &str) {
    unsafe { sx_assert(c, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { sx_cover(m.as_ptr(), m.len()) }
}
pub fn out(m: &str) {
    unsafe { sx_out(m.as_ptr(), m.len()) }
}
/// Runs f; a panic inside counts as an orderly refusal of the input.
pub fn may_refuse<T>(f: impl FnOnce() -> T) -> T {
    unsafe { sx_panic_ok(true) };
    let r = f();
    unsafe { sx_panic_ok(false) };
    r
}
pub fn file(name: &str, data: &str) {
    unsafe { sx_file(name.as_ptr(), name.len(), data.as_ptr(), data.len()) }
}
/// Explore n hash slots for every new hash-map key (0: one fixed order).
pub fn hash_mode(n: u64) {
    unsafe { sx_hash_mode(n) }
}
pub fn clock(secs: u64) {
    unsafe { sx_clock(secs) }
}
pub fn live<T>(p: *const T) -> bool {
    unsafe { sx_live(p as *const u8, std::mem::size_of::<T>()) }
}

/// A bound set on the command line of the run.
pub fn param(i: u64, default: u64) -> u64 {
    unsafe { sx_param(i, default) }
}

// Byte-loop replacements for the word-at-a-time searches of the standard library.
#[no_mangle]
pub fn sxm_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[no_mangle]
pub fn sxm_memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        if text[i] == x {
            return Some(i);
        }
    }
    None
}
