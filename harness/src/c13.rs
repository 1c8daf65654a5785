//! Structure of a journal text.
use crate::{book, sx, util::*};
use chrono::Datelike;
use ledger_rs_lib::{journal::Journal, parse_text};

struct X {
    day: u32,
    payee: Vec<u8>,
    posts: Vec<Want>,
}
struct Doc {
    t: T,
    xs: Vec<X>,
    nl: &'static str,
}
impl Doc {
    fn new(crlf: bool) -> Doc {
        Doc { t: T::new(), xs: vec![], nl: if crlf { "\r\n" } else { "\n" } }
    }
    fn line(&mut self, s: &[u8]) {
        self.t.b(s).s(self.nl);
    }
    /// A transaction of n postings with its number in the date, the payee and the amounts.
    fn xact(&mut self, n: usize, x: &Num) {
        let i = self.xs.len();
        let day = 10 + i as u32;
        let d = format!("2023-04-{}", day);
        let payee = vec![b'P', b'a' + i as u8];
        self.t.s(&d).s(" ").b(&payee).s(self.nl);
        let mut posts = vec![];
        let mut sum = Dec::zero();
        for k in 0..n {
            let a = ["Assets:Cash", "B", "Costs:X y", "D"][(i + k) % 4];
            let v = if k == 0 { x.clone() } else { fixed(["2", "-3.5", "11"][k % 3]) };
            self.t.s("  ").s(a);
            if k + 1 < n {
                self.t.s("  ").b(&v.t).s(" EUR");
                sum = sum.add(v.v);
                posts.push(Want { account: a.to_string(), amount: v.v, symbol: "EUR".to_string() });
            } else {
                posts.push(Want { account: a.to_string(), amount: sum.neg(), symbol: "EUR".to_string() });
            }
            self.t.s(self.nl);
        }
        self.xs.push(X { day, payee, posts });
    }
    fn check(self) {
        let mut j = Journal::new();
        parse_text(self.t.str(), &mut j);
        self.matches(&j);
    }
    fn matches(self, j: &Journal) {
        sx::assert(j.xacts.len() == self.xs.len(), "number of transactions");
        for (x, w) in j.xacts.iter().zip(&self.xs) {
            let d = x.date.unwrap();
            sx::assert(d.year() == 2023 && d.month() == 4 && d.day() == w.day, "transactions come in the order of the text");
            sx::assert(same(x.payee.as_bytes(), &w.payee), "payee");
            sx::assert(x.note.is_none() && x.aux_date.is_none(), "nothing is made up");
        }
        let want: Vec<Vec<Want>> = self.xs.into_iter().map(|x| x.posts).collect();
        check_journal(j, &want);
        consistent(j);
        sx::cover("end");
    }
}

/// Sequences of transactions, comments and blank lines.
#[no_mangle]
pub fn h_c13_blocks() {
    let n = sx::param(0, 4) as usize;
    let mut d = Doc::new(sx::flip());
    // does the last line of the text so far belong to a transaction?
    let mut open = false;
    for _ in 0..n {
        match sx::choose(6) {
            0 => {
                if open {
                    d.line(b"");
                }
                let x = if d.xs.is_empty() { digits(sx::flip(), 1, 1) } else { fixed("7") };
                let k = 2 + d.xs.len() % 2;
                d.xact(k, &x);
                open = true;
                continue;
            }
            1 => {
                if open {
                    d.line(b"");
                }
                let c = [&b"; comment"[..], b"# 2023-01-01 x", b"* 10 EUR", b"| y"][sx::choose(4)];
                d.line(c);
            }
            2 => d.line(b""),
            3 => d.line([&b"  "[..], b"\t"][sx::choose(2)]),
            4 => {
                if open {
                    d.line(b"");
                }
                d.line([&b";"[..], b"#", b"*", b"|"][sx::choose(4)]);
            }
            _ => {
                d.line(b"");
                d.line(b"");
            }
        }
        open = false;
    }
    // the text may end without a newline
    if sx::flip() {
        while d.t.0.last() == Some(&b'\n') || d.t.0.last() == Some(&b'\r') {
            d.t.0.pop();
        }
    }
    d.check();
}
/// Comment lines of any characters between transactions.
#[no_mangle]
pub fn h_c13_comment() {
    let n = sx::param(0, 5) as usize;
    let mut d = Doc::new(false);
    let first = sx::flip();
    if !first {
        d.xact(2, &fixed("5"));
        d.line(b"");
    }
    let mut c = vec![sx::byte(b";#*|")];
    c.extend(word(n, &text_but(b"")));
    d.line(&c);
    if sx::flip() {
        d.line(b"");
    }
    d.xact(3, &digits(false, 1, 0));
    d.check();
}
/// Every separator between two transactions, every end of the text.
#[no_mangle]
pub fn h_c13_ends() {
    let mut d = Doc::new(sx::flip());
    let k = 2 + sx::choose(3);
    d.xact(k, &num(&[(1, 0), (1, 1)]));
    let seps: [&[&[u8]]; 9] = [&[b"\t"], &[b" \t ", b"\t\t"], &[b""], &[b"", b""], &[b" "], &[b"    ", b""], &[b"", b"; c", b""], &[b"", b"   ", b"# c"], &[b"", b"", b"", b"* x", b"| y"]];
    for l in seps[sx::choose(9)] {
        d.line(l);
    }
    let k = 2 + sx::choose(2);
    d.xact(k, &num(&[(2, 0)]));
    match sx::choose(6) {
        5 => {
            d.t.s("\t");
        }
        0 => {}
        1 => {
            d.t.0.pop();
            if d.nl.len() == 2 {
                d.t.0.pop();
            }
        }
        2 => d.line(b""),
        3 => {
            d.t.s("   ");
        }
        _ => {
            d.line(b"");
            d.t.s("; the end");
        }
    }
    d.check();
}
/// Texts without a transaction.
#[no_mangle]
pub fn h_c13_empty() {
    let n = sx::choose(sx::param(0, 5) + 1);
    let mut d = Doc::new(false);
    for _ in 0..n {
        let l = [&b""[..], b"; x", b"#", b"   ", b"*  5", b"\t"][sx::choose(6)];
        d.line(l);
    }
    if sx::flip() {
        d.t.0.pop();
    }
    d.check();
}
/// A transaction that follows another one without a blank line is never dropped silently.
#[no_mangle]
pub fn h_c13_adjacent() {
    let mut d = Doc::new(sx::flip());
    d.xact(2, &digits(false, 1, 0));
    if sx::flip() {
        d.line([&b"; x"[..], b"# y", b"* z"][sx::choose(3)]);
    }
    d.xact(2, &fixed("4"));
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(d.t.str(), &mut j));
    d.matches(&j);
}
/// Many transactions.
#[no_mangle]
pub fn h_c13_many() {
    let n = 2 + sx::choose(sx::param(0, 12) - 1);
    let mut d = Doc::new(false);
    for i in 0..n {
        if i > 0 {
            d.line(b"");
        }
        let x = if i % 4 == 0 { digits(false, 1, 1) } else { fixed("3") };
        d.xact(2 + i % 3, &x);
    }
    d.check();
}
/// Any sequence of transactions of several kinds, dates in any order, equal ones included.
#[no_mangle]
pub fn h_c13_varied() {
    let n = sx::param(0, 2) as usize;
    let mut t = T::new();
    let es: Vec<book::Entry> = (0..n).map(|_| book::entry(&mut t, sx::choose(book::KINDS), sx::choose(4))).collect();
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    book::check(&j, &es);
    sx::cover("end");
}
/// Account names that begin like comments or directives are still postings.
#[no_mangle]
pub fn h_c13_names() {
    let n = sx::param(0, 2) as usize;
    let mut d = Doc::new(sx::flip());
    let mut a = vec![sx::byte(&but(b";:"))];
    a.extend(word(n, b"#*| !a1"));
    a.push(b'x');
    for i in 0..a.len() - 1 {
        sx::assume(!(a[i] == b' ' && a[i + 1] == b' '));
    }
    let v = digits(false, 1, 0);
    let i = sx::choose(3);
    d.t.s("2023-04-10 Pa").s(d.nl);
    let mut posts = vec![];
    for k in 0..3 {
        let acc = if k == i { utf8(&a).to_string() } else { "Other".to_string() };
        d.t.s("  ").b(acc.as_bytes());
        if k < 2 {
            d.t.s("  ").b(&v.t).s(" EUR");
        }
        d.t.s(d.nl);
        posts.push(Want { account: acc, amount: if k < 2 { v.v } else { v.v.add(v.v).neg() }, symbol: "EUR".to_string() });
    }
    d.xs.push(X { day: 10, payee: b"Pa".to_vec(), posts });
    d.check();
}
/// Lines of any length, the last one with or without its end.
#[no_mangle]
pub fn h_c13_long() {
    let lens = [20, 47, 63, 80, 127, 200, 300];
    let long = |c: u8| vec![c; lens[sx::choose(7)]];
    let mut d = Doc::new(sx::flip());
    let place = sx::choose(5);
    d.xact(2, &fixed("5"));
    d.line(b"");
    if place == 4 {
        let c = [b"; ", &long(b'c')[..]].concat();
        d.line(&c);
    }
    let payee = if place == 0 { long(b'p') } else { b"Pa".to_vec() };
    let accs = [if place == 1 { long(b'a') } else { b"Acc".to_vec() }, if place == 2 { [b"B:", &long(b'b')[..]].concat() } else { b"Other".to_vec() }];
    let v = digits(false, 1, 1);
    d.t.s("2023-04-10 ").b(&payee).s(d.nl).s("  ").b(&accs[0]).s("  ").b(&v.t).s(" EUR").s(d.nl).s("  ").b(&accs[1]);
    if place == 3 {
        d.t.s("  ").sp(lens[sx::choose(7)]).s("-").b(&v.t).s(" EUR");
    }
    if sx::flip() {
        d.t.s(d.nl);
    }
    let posts = vec![
        Want { account: utf8(&accs[0]).to_string(), amount: v.v, symbol: "EUR".to_string() },
        Want { account: utf8(&accs[1]).to_string(), amount: v.v.neg(), symbol: "EUR".to_string() },
    ];
    d.xs.push(X { day: 10, payee, posts });
    d.check();
}
/// Many transactions and many postings.
#[no_mangle]
pub fn h_c13_large() {
    let n = sx::param(0, 150) as usize;
    let x = digits(false, 1, 0);
    let mut d = Doc::new(sx::flip());
    let wide = sx::flip();
    let (xs, ps) = if wide { (3, n) } else { (n, 2) };
    for i in 0..xs {
        d.t.s("2023-04-1").b(&[b'0' + (i % 2) as u8]).s(" Pa").s(d.nl);
        let mut posts = vec![];
        let mut sum = Dec::zero();
        for k in 0..ps {
            let a = ["A", "A:B", "C"][(i / 2 + k) % 3];
            d.t.s("  ").s(a);
            let v = if k == 0 || k == ps / 2 { x.clone() } else { fixed("3") };
            let last = k + 1 == ps;
            if !last {
                d.t.s("  ").b(&v.t).s(" EUR");
                sum = sum.add(v.v);
            }
            d.t.s(d.nl);
            posts.push(Want { account: a.to_string(), amount: if last { sum.neg() } else { v.v }, symbol: "EUR".to_string() });
        }
        if i + 1 < xs {
            d.t.s(d.nl);
        }
        d.xs.push(X { day: 10 + (i % 2) as u32, payee: b"Pa".to_vec(), posts });
    }
    d.check();
}
/// Whatever features meet in a transaction: the number of transactions and postings.
#[no_mangle]
pub fn h_c13_meet() {
    crate::mix::run(crate::mix::COUNT, sx::param(0, 2));
}
/// A posting that cannot be read is refused with the text, wherever it stands; no posting is missing in what is accepted.
#[no_mangle]
pub fn h_c13_faulty() {
    let n = 1 + sx::choose(3) as usize;
    let at = sx::choose(n as u64) as usize;
    let k = sx::choose(12);
    let w = word(2, b"0123456789");
    let (d, e) = if sx::flip() { (w, b"05".to_vec()) } else { (b"02".to_vec(), w) };
    let after = sx::choose(3);
    let crlf = at % 2 == 1;
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut t = T::new();
    t.s("2023-04-20 Before").s(nl).s("  A  1 EUR").s(nl).s("  B").s(nl).s(nl);
    t.s("2023-04-21 Payee").s(nl);
    for i in 0..n {
        t.s("  ").s(["First", "Second", "Third"][i]).s("  ");
        if i != at {
            t.s("1 EUR").s(nl);
            continue;
        }
        match k {
            0 => t.s("1 EUR [2023-").b(&d).s("-").b(&e).s("]"),
            1 => t.s("1 EUR {2 USD} [2023-").b(&d).s("-").b(&e).s("] @ 3 USD"),
            2 => t.s("1 EUR [2023-").b(&d).s("-").b(&e).s("] {2 USD}"),
            3 => t.s("1 EUR [").b(&d).s("]"),
            4 => t.s("1 EUR {").b(&d).s("-").b(&e).s(" USD}"),
            5 => t.s("1 EUR {").b(&d).s(" USD"),
            6 => t.s("1 EUR @"),
            7 => t.s("1 EUR @@ USD"),
            8 => t.s("1 EUR {USD}"),
            9 => t.s("1 EUR {2 USD} {3 USD}"),
            10 => t.b(&d).s("-").b(&e).s(" EUR"),
            _ => t.s("1 EUR [2023-01-01] [2023-").b(&d).s("-").b(&e).s("]"),
        };
        t.s(if i + 1 == n && after == 0 { "" } else { nl });
    }
    if after == 2 {
        t.s(nl).s("2023-04-22 After").s(nl).s("  A  1 EUR").s(nl).s("  B").s(nl);
    }
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    sx::assert(j.xacts.len() == if after == 2 { 3 } else { 2 }, "no transaction is missing");
    sx::assert(j.xacts[1].posts.len() == n, "no posting is missing");
    for (i, p) in j.xacts[1].posts.iter().enumerate() {
        sx::assert(account(p).fullname() == ["First", "Second", "Third"][i], "the postings in their order");
    }
    consistent(&j);
}
