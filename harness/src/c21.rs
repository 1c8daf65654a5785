//! Any text: read or refused, never anything worse.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text, report};

fn valid(s: &str) {
    sx::assert(std::str::from_utf8(s.as_bytes()).is_ok(), "every text of the journal is valid");
}
fn go(t: &T, after: bool) {
    read(t, after, false)
}
fn read(t: &T, after: bool, texts: bool) {
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    consistent(&j);
    if texts {
        for x in &j.xacts {
            valid(&x.payee);
            valid(x.note.as_deref().unwrap_or(""));
            for p in &x.posts {
                valid(p.note.as_deref().unwrap_or(""));
                valid(p.amount.as_ref().map_or("", |a| sym(a)));
                valid(p.cost.as_ref().map_or("", |a| sym(a)));
            }
        }
        for a in tree(&j) {
            valid(&a.name);
            valid(a.fullname());
        }
    }
    for x in &j.xacts {
        for p in &x.posts {
            sx::assert(p.amount.is_some(), "every posting of a journal has an amount");
        }
    }
    let lines = report::balance_report(&j);
    sx::assert(lines.len() == tree(&j).len(), "one line for every account");
    if after {
        // the journal can be added to
        let n = j.xacts.len();
        parse_text("2023-06-01 x\n  New:A  1 EUR\n  B\n", &mut j);
        sx::assert(j.xacts.len() == n + 1, "a journal can be added to");
        consistent(&j);
    }
    sx::cover("end");
}
const SET: &[u8] = b"a:15-. \n;@={[}]$\r\t";

/// Whole texts.
#[no_mangle]
pub fn h_c21_text() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let mut t = T::new();
    t.b(&word(n, b"a1-=;# \n\r\t:*|P~"));
    go(&t, true);
}
/// The rest of a header line.
#[no_mangle]
pub fn h_c21_header() {
    let n = sx::choose(sx::param(0, 3) + 1);
    let mut t = T::new();
    t.s("2023-04-21").b(&word(n, b"a1-=; \n\r\t:*")).s("\n  A  1 EUR\n  B\n");
    go(&t, false);
}
/// A posting line.
#[no_mangle]
pub fn h_c21_post() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n ").b(&word(n, SET)).s("\n  B  1 EUR\n");
    go(&t, false);
}
/// The place of the amount.
#[no_mangle]
pub fn h_c21_amount() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ").b(&word(n, SET)).s("\n  B\n");
    go(&t, false);
}
/// What follows an amount.
#[no_mangle]
pub fn h_c21_tail() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  1 EUR").b(&word(n, SET)).s("\n  B  -1 EUR\n");
    go(&t, false);
}
/// A line after a transaction.
#[no_mangle]
pub fn h_c21_next() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  1 EUR\n  B\n").b(&word(n, b"a1-=; \n\r\t:*"));
    go(&t, true);
}
/// Lines of UTF-8 in odd places.
#[no_mangle]
pub fn h_c21_utf8() {
    let odd = ["é", "\u{a0}", "\u{3000}", "€", "💰", "\u{feff}", "\u{2028}", "٣", "５", "\u{85}"];
    let o = odd[sx::choose(odd.len() as u64)];
    let mut t = T::new();
    let k = sx::choose(9);
    let h = |i: usize, t: &mut T| {
        if i == k {
            t.s(o);
        }
    };
    h(0, &mut t);
    t.s("2023-04-21");
    h(1, &mut t);
    t.s(" Pa");
    h(2, &mut t);
    t.s("  ;");
    h(3, &mut t);
    t.s("n\n ");
    h(4, &mut t);
    t.s(" A  ");
    h(5, &mut t);
    t.s("1");
    h(6, &mut t);
    t.s(" EUR");
    h(7, &mut t);
    t.s(" \n  B\n");
    h(8, &mut t);
    t.b(&word(1, b" \na"));
    read(&t, false, true);
}
/// A short tail of any bytes after a lot or a cost has begun.
#[no_mangle]
pub fn h_c21_lot() {
    let n = sx::choose(sx::param(0, 3) + 1);
    let mut t = T::new();
    let starts = ["{", "{2 EUR", "[", "[2023-01-01", "@", "@@", "@ 2 EUR", "{2 EUR} ", "("];
    t.s("2023-04-21 Payee\n  A  1 VEUR ").s(starts[sx::choose(9)]).b(&word(n, b"a1-. ;@{[}]$=\n")).s("\n  B\n");
    go(&t, false);
}

/// Letters of two and three bytes with any last byte, in every place of a text.
#[no_mangle]
pub fn h_c21_bytes() {
    let k = sx::choose(8);
    let w = match sx::choose(3) {
        0 => vec![0xc4, sx::range(0x80, 0xbf) as u8],
        1 => vec![0xe5, sx::range(0x80, 0xbf) as u8, sx::range(0x80, 0xbf) as u8],
        _ => vec![0xf0, 0x9f, 0x92, sx::range(0x80, 0xbf) as u8],
    };
    let mut t = T::new();
    let h = |i: usize, t: &mut T| {
        if i == k {
            t.b(&w);
        }
    };
    t.s("2023-04-21 ");
    h(0, &mut t);
    t.s("Pa");
    h(1, &mut t);
    t.s("  ; n");
    h(2, &mut t);
    t.s("\n  ");
    h(3, &mut t);
    t.s("A");
    h(4, &mut t);
    t.s([":B  1 ", "  1 "][sx::choose(2)]);
    h(5, &mut t);
    t.s("E");
    h(6, &mut t);
    t.s("\n  B");
    h(7, &mut t);
    t.s("\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    let ok = |s: &str| sx::assert(std::str::from_utf8(s.as_bytes()).is_ok(), "every name is valid text");
    for x in &j.xacts {
        ok(&x.payee);
        x.note.as_deref().map(ok);
        for p in &x.posts {
            p.note.as_deref().map(ok);
            ok(sym(p.amount.as_ref().unwrap()));
        }
    }
    for a in tree(&j) {
        ok(&a.name);
    }
    consistent(&j);
    sx::cover("end");
}
/// Transactions of many postings, any of them without an amount, in one or several commodities.
#[no_mangle]
pub fn h_c21_many() {
    let n = 1 + sx::choose(sx::param(0, 5));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    for i in 0..n {
        t.s("  ").b(&[b'A' + (i % 3) as u8]);
        match sx::choose(5) {
            0 => {}
            1 => {
                t.s("  1 EUR");
            }
            2 => {
                t.s("  -2 USD");
            }
            3 => {
                t.s("  0 ABC");
            }
            _ => {
                t.s("  3 ABC @ 2 EUR");
            }
        }
        t.s("\n");
    }
    go(&t, true);
}
