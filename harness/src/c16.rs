//! The command line.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text, report, run, run_command};

fn text(k: usize, x: &Num) -> T {
    let mut t = T::new();
    match k {
        0 => t.s("2023-01-01 One\n  A:B  ").b(&x.t).s(" EUR\n  C\n"),
        1 => t.s("2023-01-02 Two\n  C:D  ").b(&x.t).s(" USD\n  A\n"),
        _ => t.s("; no transaction\n"),
    };
    t
}
fn expect(verb: &str, texts: &[&T]) -> Vec<String> {
    let mut j = Journal::new();
    for t in texts {
        parse_text(t.str(), &mut j);
    }
    if verb.starts_with('a') {
        let mut v = report::report_accounts(&j);
        v.sort();
        v
    } else {
        report::balance_report(&j)
    }
}
fn lines(a: &[String], b: &[String]) {
    sx::assert(a.len() == b.len(), "the report has the lines of the files' journal");
    for (x, y) in a.iter().zip(b) {
        sx::assert(same(x.as_bytes(), y.as_bytes()), "the report is that of the files' journal");
    }
    sx::cover("end");
}
const VERBS: [&str; 5] = ["b", "bal", "balance", "a", "accounts"];

/// Any order of the command and the file options.
#[no_mangle]
pub fn h_c16_order() {
    let x = digits(false, 1, 1);
    let (p, q) = (text(0, &x), text(1, &x));
    sx::file("p.ledger", p.str());
    sx::file("q.ledger", q.str());
    let verb = VERBS[sx::choose(5)];
    let n = sx::choose(4);
    let at = sx::choose(n as u64 + 1);
    let mut args: Vec<String> = vec![];
    let mut used: Vec<&T> = vec![];
    for i in 0..n + 1 {
        if i == at {
            args.push(verb.to_string());
        }
        if i < n {
            let f = sx::flip();
            args.push("-f".to_string());
            args.push(if f { "p.ledger" } else { "q.ledger" }.to_string());
            used.push(if f { &p } else { &q });
        }
    }
    lines(&run(args), &expect(verb, &used));
}
/// The same from a command string.
#[no_mangle]
pub fn h_c16_string() {
    let x = digits(false, 1, 0);
    let p = text(sx::choose(3), &x);
    let forms: [(&str, &str); 7] = [
        ("p.ledger", "p.ledger"),
        ("\"my file.ledger\"", "my file.ledger"),
        ("'my file.ledger'", "my file.ledger"),
        ("my\\ file.ledger", "my file.ledger"),
        ("\"it's.ledger\"", "it's.ledger"),
        ("ünï.ledger", "ünï.ledger"),
        ("b", "b"),
    ];
    let f = forms[sx::choose(7)];
    sx::file(f.1, p.str());
    let verb = VERBS[sx::choose(5)];
    let s = match sx::choose(3) {
        0 => format!("{} -f {}", verb, f.0),
        1 => format!("-f {} {}", f.0, verb),
        _ => format!("  {}   -f   {}  ", verb, f.0),
    };
    lines(&run_command(&s), &expect(verb, &[&p]));
}
/// Several option letters in one argument take the arguments that follow in their order.
#[no_mangle]
pub fn h_c16_letters() {
    let x = digits(false, 1, 0);
    let (p, q) = (text(0, &x), text(1, &x));
    sx::file("p.ledger", p.str());
    sx::file("q.ledger", q.str());
    let names = [("p.ledger", &p), ("q.ledger", &q)];
    let (a, b) = (names[sx::choose(2)], names[sx::choose(2)]);
    let mut args: Vec<String> = ["-ff", a.0, b.0].iter().map(|s| s.to_string()).collect();
    let verb = VERBS[sx::choose(5)];
    if sx::flip() {
        args.insert(0, verb.to_string());
    } else {
        args.push(verb.to_string());
    }
    lines(&run(args), &expect(verb, &[a.1, b.1]));
}
/// File names of any characters.
#[no_mangle]
pub fn h_c16_name() {
    let x = digits(false, 1, 0);
    let p = text(0, &x);
    let n = sx::param(0, 2) as usize;
    let mut name = vec![b'f'];
    if sx::flip() {
        name.extend(word(n, b"abf-_.b B"));
        name.push(b'x');
    } else {
        // any character at either end or between
        name.extend_from_slice(b"ab");
        let k = sx::choose(3);
        name[k] = sx::byte(&text_but(if k == 0 { b"-/." } else { b"/." }));
    }
    for i in 0..name.len() {
        name[i] = sx::conc(name[i] as u64) as u8;
    }
    sx::file(utf8(&name), p.str());
    let args = vec!["b".to_string(), "-f".to_string(), utf8(&name).to_string()];
    lines(&run(args), &expect("b", &[&p]));
}
/// Options without their value and unknown options are refused, not ignored.
#[no_mangle]
pub fn h_c16_refuse() {
    let x = digits(false, 1, 0);
    let p = text(0, &x);
    sx::file("p.ledger", p.str());
    let cases: [&[&str]; 8] = [
        &["b", "-f"],
        &["-f", "p.ledger", "b", "-f"],
        &["b", "-x", "p.ledger"],
        &["b", "-f", "p.ledger", "-q", "p.ledger"],
        &["b", "-ff", "p.ledger"],
        &["b", "--file", "p.ledger"],
        &["b", "-fx", "p.ledger", "p.ledger"],
        &["unknown", "-f", "p.ledger"],
    ];
    let c = cases[sx::choose(8)];
    let args = c.iter().map(|s| s.to_string()).collect();
    sx::may_refuse(|| run(args));
    sx::assert(false, "an argument that is not understood is refused");
}

/// What the reports say, told from the files' contents alone.
#[no_mangle]
pub fn h_c16_content() {
    let names = ["A:X", "B:X", "A:X:Y", "X", "a:x", "B", "C:A", "Y"];
    let x = digits(false, 1, 0);
    sx::assume(!x.v.is_zero());
    let n = sx::param(0, 2) as usize;
    let mut full: Vec<String> = vec![String::new()];
    let mut sums: Vec<(String, Dec)> = vec![(String::new(), Dec::zero())];
    let mut files = vec![];
    for i in 0..n {
        let (a, b) = (names[sx::choose(8)], names[[1, 6][sx::choose(2)]]);
        let mut t = T::new();
        t.s("2023-01-01 P\n  ").s(a).s("  ").b(&x.t).s(" EUR\n  ").s(b).s("\n");
        let f = ["p.ledger", "q.ledger", "r.ledger"][i];
        sx::file(f, t.str());
        files.push(f);
        for (s, v) in [(a, x.v), (b, x.v.neg())] {
            for k in 0..s.len() + 1 {
                if k == s.len() || s.as_bytes()[k] == b':' {
                    if !full.iter().any(|f| f == &s[..k]) {
                        full.push(s[..k].to_string());
                        sums.push((s[..k].to_string(), Dec::zero()));
                    }
                    let e = sums.iter_mut().find(|e| e.0 == s[..k]).unwrap();
                    e.1 = e.1.add(v);
                }
            }
        }
    }
    let bal = sx::flip();
    let mut args = vec![if bal { "b" } else { "accounts" }.to_string()];
    for f in files {
        args.push("-f".to_string());
        args.push(f.to_string());
    }
    let got = run(args);
    sx::assert(got.len() == full.len(), "one line for every account");
    if bal {
        for l in &got {
            let Some(k) = l.find(" has balance ") else {
                sx::assert(false, "a line of the balance report");
                return;
            };
            let w = sums.iter().find(|e| e.0 == l[8..k]);
            let Some(w) = w else {
                sx::assert(false, "accounts of the report are those of the files");
                return;
            };
            let mut s = Sums::new();
            s.add("EUR", w.1);
            check_amounts(&read_amounts(&l[k + 13..]), &s, "balance in the report");
        }
    } else {
        let mut want: Vec<String> = full.iter().map(|f| f.rsplit(':').next().unwrap().to_string()).collect();
        want.sort();
        for (g, w) in got.iter().zip(&want) {
            sx::assert(g == w, "the accounts of the files, each once");
        }
    }
    sx::cover("end");
}

/// Files that share accounts but not commodities, read in the order given.
#[no_mangle]
pub fn h_c16_shared() {
    let x = digits(false, 1, 0);
    let n = sx::param(0, 4) as usize;
    let names = ["p.ledger", "q.ledger", "r.ledger", "s.ledger", "t.ledger"];
    let syms = ["EUR", "USD", "$", "ABC", "X"];
    let mut ts = vec![];
    for i in 0..n {
        let mut t = T::new();
        t.s("2023-01-0").b(&[b'9' - i as u8]).s(" P\n  A:B  ").b(&x.t).s(" ").s(syms[i]).s("\n  C\n");
        sx::file(names[i], t.str());
        ts.push(t);
    }
    let k = sx::choose(n as u64) + 1;
    let mut left: Vec<usize> = (0..n).collect();
    let mut args: Vec<String> = vec![];
    let mut used: Vec<&T> = vec![];
    for _ in 0..k {
        let i = left.remove(sx::choose(left.len() as u64));
        args.push("-f".to_string());
        args.push(names[i].to_string());
        used.push(&ts[i]);
    }
    let verb = VERBS[sx::choose(2) * 3];
    args.push(verb.to_string());
    lines(&run(args), &expect(verb, &used));
}

/// Many files, or one many times.
#[no_mangle]
pub fn h_c16_large() {
    let n = sx::param(0, 40) as usize;
    let x = digits(false, 1, 0);
    let same_file = sx::flip();
    let mut args: Vec<String> = vec![];
    let mut ts = vec![];
    for i in 0..n {
        let mut t = T::new();
        let k = if same_file { 0 } else { i };
        t.s("2023-01-01 P\n  A").s(&(k % 7).to_string()).s(":B").s(&k.to_string()).s("  ").b(&x.t).s(" EUR\n  C\n");
        let name = format!("file{}.ledger", k);
        sx::file(&name, t.str());
        args.push("-f".to_string());
        args.push(name);
        ts.push(t);
    }
    let verb = VERBS[sx::choose(2) * 3];
    args.insert([0, n, 2 * n][sx::choose(3)] & !1, verb.to_string());
    let used: Vec<&T> = ts.iter().collect();
    let got = if sx::flip() { run(args) } else { run_command(&args.join(" ")) };
    lines(&got, &expect(verb, &used));
}
/// Whatever features meet in a transaction: the command reports on it.
#[no_mangle]
pub fn h_c16_meet() {
    crate::mix::run(crate::mix::COMMAND, sx::param(0, 2));
}
/// Files named by paths, by names with dots and dashes, and by words that are also commands or options.
#[no_mangle]
pub fn h_c16_paths() {
    let x = digits(false, 1, 0);
    let (p, q) = (text(0, &x), text(1, &x));
    let forms: [(&str, &str); 14] = [
        ("./p.ledger", "p.ledger"),
        ("./.p.ledger", ".p.ledger"),
        (".p", ".p"),
        ("dir/p.ledger", "dir/p.ledger"),
        ("./dir/p", "dir/p"),
        ("dir/../p.ledger", "p.ledger"),
        ("dir/.p", "dir/.p"),
        ("-p.ledger", "-p.ledger"),
        ("b", "b"),
        ("accounts", "accounts"),
        ("p.", "p."),
        ("p..ledger", "p..ledger"),
        ("p.journal", "p.journal"),
        ("dir/deep/p~", "dir/deep/p~"),
    ];
    let f = forms[sx::choose(14)];
    // files of similar names that must not be read instead
    let other = text(2, &x);
    for n in ["p", "p.ledger", "dir/p.ledger", "dir/p", "dir/deep/p", ".ledger"] {
        sx::file(n, other.str());
    }
    sx::file(f.1, p.str());
    sx::file("q.ledger", q.str());
    let verb = ["b", "accounts"][sx::choose(2)];
    let (args, files): (Vec<&str>, Vec<&T>) = match sx::choose(4) {
        0 => (vec![verb, "-f", f.0], vec![&p]),
        1 => (vec!["-f", f.0, verb], vec![&p]),
        2 => (vec!["-f", f.0, verb, "-f", "q.ledger"], vec![&p, &q]),
        _ => (vec![verb, "-f", "q.ledger", "-f", f.0], vec![&q, &p]),
    };
    lines(&run(args.iter().map(|a| a.to_string()).collect()), &expect(verb, &files));
}
