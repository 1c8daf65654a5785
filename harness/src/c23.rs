//! The program (src/main.rs): its text is compiled here, between stand-ins for the process'
//! arguments and its standard output.
use crate::{sx, util::*};
use ledger_rs_lib::run;

/// What the program sees of its process.
pub mod process {
    static mut ARGS: Vec<String> = vec![];
    static mut OUT: String = String::new();
    pub fn set(args: Vec<String>) {
        unsafe { *(&raw mut ARGS) = args };
    }
    pub fn args() -> Vec<String> {
        unsafe { (*(&raw const ARGS)).clone() }
    }
    pub fn put(s: &str) {
        unsafe { (*(&raw mut OUT)).push_str(s) };
    }
    pub fn out() -> &'static str {
        unsafe { (*(&raw const OUT)).as_str() }
    }
    pub fn clear() {
        unsafe { (*(&raw mut OUT)).clear() };
    }
}
#[allow(unused_macros, unused_imports)]
mod program {
    mod std {
        pub use ::std::*;
        pub mod env {
            pub use ::std::env::*;
            pub fn args() -> ::std::vec::IntoIter<::std::string::String> {
                crate::c23::process::args().into_iter()
            }
            pub fn args_os() -> ::std::vec::IntoIter<::std::ffi::OsString> {
                let v: ::std::vec::Vec<::std::ffi::OsString> = crate::c23::process::args().into_iter().map(|a| a.into()).collect();
                v.into_iter()
            }
        }
        pub mod io {
            pub use ::std::io::*;
            pub struct Stdout;
            impl Stdout {
                pub fn lock(&self) -> Stdout {
                    Stdout
                }
            }
            impl ::std::io::Write for Stdout {
                fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
                    crate::c23::process::put(unsafe { ::std::str::from_utf8_unchecked(b) });
                    Ok(b.len())
                }
                fn flush(&mut self) -> ::std::io::Result<()> {
                    Ok(())
                }
            }
            pub fn stdout() -> Stdout {
                Stdout
            }
        }
    }
    macro_rules! println {
        () => { crate::c23::process::put("\n") };
        ($($t:tt)*) => {{ crate::c23::process::put(&::std::format!($($t)*)); crate::c23::process::put("\n"); }};
    }
    macro_rules! print {
        ($($t:tt)*) => { crate::c23::process::put(&::std::format!($($t)*)) };
    }
    include!(env!("LSX_MAIN"));
    pub fn go() {
        let _ = main();
    }
}

const NAMES: [&str; 8] = ["ledger", "./target/debug/ledger-rs-lib", "/usr/bin/ledger", "b", "accounts", "-f", "p.ledger", ""];

fn compare(args: Vec<String>, own: &str) {
    let expected = run(args.clone());
    let mut all: Vec<String> = vec![own.to_string()];
    all.extend(args);
    process::clear();
    process::set(all);
    program::go();
    let out = process::out().as_bytes();
    let mut i = 0;
    for l in &expected {
        let l = l.as_bytes();
        let mut found = false;
        while !found && i + l.len() <= out.len() {
            found = same(&out[i..i + l.len()], l);
            i += if found { l.len() } else { 1 };
        }
        sx::assert(found, "the program prints the report of its arguments");
    }
    sx::cover("end");
}

/// The program prints the report of its arguments, whatever its own name.
#[no_mangle]
pub fn h_c23_program() {
    let x = digits(false, 1, 1);
    let mut p = T::new();
    p.s("2023-01-01 One\n  Zeta:Bank  ").b(&x.t).s(" EUR\n  Yield\n");
    sx::file("p.ledger", p.str());
    sx::file("q.ledger", "2023-01-02 Two\n  Debt  5 USD\n  Zeta\n");
    let verb = ["b", "bal", "balance", "a", "accounts"][sx::choose(5)];
    let args: Vec<&str> = match sx::choose(5) {
        0 => vec![verb, "-f", "p.ledger"],
        1 => vec!["-f", "p.ledger", verb],
        2 => vec![verb, "-f", "q.ledger", "-f", "p.ledger"],
        3 => vec!["-f", "p.ledger", verb, "-f", "q.ledger"],
        _ => vec!["-ff", "p.ledger", "q.ledger", verb],
    };
    compare(args.iter().map(|a| a.to_string()).collect(), NAMES[sx::choose(8)]);
}

/// However many arguments and lines.
#[no_mangle]
pub fn h_c23_many() {
    let n = [1, 2, 3, 5, 8, sx::param(0, 30) as usize][sx::choose(6)];
    let same_file = sx::choose(2) == 1;
    let mut args: Vec<String> = vec![];
    let verb = ["b", "accounts"][sx::choose(2)];
    let place = [0, n][sx::choose(2)];
    for i in 0..n {
        if i == place {
            args.push(verb.to_string());
        }
        let k = if same_file { 0 } else { i };
        let name = format!("f{}.ledger", k);
        sx::file(&name, &format!("2023-01-01 T{}\n  Zeta:Bank{}:Giro  {} EUR\n  Yield{}  -{} EUR\n", k, k, k, k, k));
        args.push("-f".to_string());
        args.push(name);
    }
    if place == n {
        args.push(verb.to_string());
    }
    compare(args, "ledger");
}
