//! Transaction headers.
use crate::{sx, util::*};
use chrono::{Datelike, Timelike};
use ledger_rs_lib::{journal::Journal, parse_text, parser};

const BODY: &str = "  A  1 EUR\n  B\n";

fn days(y: u32, m: u32) -> u32 {
    match m {
        2 => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Two digits of a date: the ones given, or symbolic.
fn two(t: &mut Vec<u8>, known: Option<&str>) -> u32 {
    let (a, b) = match known {
        Some(k) => (k.as_bytes()[0], k.as_bytes()[1]),
        None => (sx::digit(), sx::digit()),
    };
    t.push(a);
    t.push(b);
    (a - b'0') as u32 * 10 + (b - b'0') as u32
}
/// Any digits in the places of a date: read as that day, or refused if there is no such day.
#[no_mangle]
pub fn h_c12_date() {
    let aux = sx::flip();
    let years = ["2024", "1900", "2023", "2000", "1999", "2100"];
    let y = years[sx::choose(sx::param(0, 2))];
    let mut d = y.as_bytes().to_vec();
    d.push(b'-');
    // the month or the day symbolic
    let months = ["00", "01", "02", "04", "06", "09", "11", "12", "13", "20", "99"];
    let pick = sx::choose(months.len() as u64 + 1);
    let m = two(&mut d, months.get(pick).copied());
    d.push(b'-');
    let k = two(&mut d, if pick == months.len() { Some("15") } else { None });
    let yy: u32 = y.parse().unwrap();
    let ok = m >= 1 && m <= 12 && k >= 1 && k <= days(yy, m);
    let mut t = T::new();
    if aux {
        t.s("2022-02-03=").b(&d).s(" Payee\n").s(BODY);
    } else {
        t.b(&d).s(["=2022-02-03", ""][sx::choose(2)]).s(" Payee\n").s(BODY);
    }
    let mut j = Journal::new();
    if ok {
        parse_text(t.str(), &mut j);
        sx::cover("read");
    } else {
        sx::cover("no such day");
        sx::may_refuse(|| parse_text(t.str(), &mut j));
    }
    sx::assert(ok || j.xacts.is_empty(), "a date that does not exist is refused");
    let x = &j.xacts[0];
    let got = if aux { x.aux_date } else { x.date };
    match got {
        None => sx::assert(false, "the date is read"),
        Some(g) => sx::assert(g.year() as u32 == yy && g.month() == m && g.day() == k, "the date is the one written"),
    }
    if aux {
        let g = x.date.unwrap();
        sx::assert(g.year() == 2022 && g.month() == 2 && g.day() == 3, "the date is not the auxiliary one");
    }
    sx::assert(x.payee == "Payee", "payee");
    sx::cover("end");
}
/// Any year.
#[no_mangle]
pub fn h_c12_year() {
    let mut d = vec![sx::byte(b"123456789")];
    d.extend(word(3, b"0123456789"));
    let mut y = 0u32;
    for c in &d {
        y = y * 10 + (*c - b'0') as u32;
    }
    let (md, m, k) = [("-01-01", 1, 1), ("-12-31", 12, 31), ("-07-04", 7, 4)][sx::choose(sx::param(0, 2))];
    let mut t = T::new();
    t.b(&d).s(md).s(" Payee\n").s(BODY);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let g = j.xacts[0].date.unwrap();
    sx::assert(g.year() as u32 == y && g.month() == m && g.day() == k, "the date is the one written");
    sx::cover("end");
}
fn check(t: &T, aux: bool, payee: &[u8], note: &[u8]) {
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 2, "the transaction is read");
    let x = &j.xacts[0];
    let d = x.date.unwrap();
    sx::assert(d.year() == 2023 && d.month() == 4 && d.day() == 21, "date");
    match x.aux_date {
        None => sx::assert(!aux, "auxiliary date"),
        Some(d) => sx::assert(aux && d.year() == 2022 && d.month() == 12 && d.day() == 31, "auxiliary date"),
    }
    if payee.is_empty() {
        sx::assert(x.payee == "Unknown Payee", "a payee that is not stated");
    } else {
        sx::assert(same(x.payee.as_bytes(), payee), "payee");
    }
    match &x.note {
        None => sx::assert(note.is_empty(), "note"),
        Some(n) => sx::assert(same(n.as_bytes(), note), "note"),
    }
    for p in &x.posts {
        sx::assert(p.note.is_none(), "the header's note is not a posting's");
    }
    consistent(&j);
    sx::cover("end");
}
/// Payees of any characters.
#[no_mangle]
pub fn h_c12_payee() {
    let n = sx::param(0, 4) as usize;
    let set = &text_but(b"")[..];
    let mut p = vec![sx::byte(&but(b""))];
    p.extend(word(n, set));
    p.push(sx::byte(&but(b"")));
    for i in 0..p.len() - 2 {
        sx::assume(!(p[i] == b' ' && p[i + 1] == b' ' && p[i + 2] == b';'));
    }
    let aux = sx::flip();
    let note = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21").s(if aux { "=2022-12-31" } else { "" }).s(" ").b(&p).s(if note { "  ; Some note" } else { "" }).s("\n").s(BODY);
    check(&t, aux, &p, if note { b"Some note" } else { b"" });
}
/// Notes of any characters.
#[no_mangle]
pub fn h_c12_note() {
    let n = sx::param(0, 4) as usize;
    let set = &text_but(b"")[..];
    let mut v = vec![sx::byte(&but(b""))];
    v.extend(word(n, set));
    v.push(sx::byte(&but(b"")));
    let aux = sx::flip();
    let payee = [&b"Payee"[..], b"", "Müller & Söhne".as_bytes(), b"x"][sx::choose(4)];
    let mut t = T::new();
    t.s("2023-04-21").s(if aux { "=2022-12-31" } else { "" });
    if !payee.is_empty() {
        t.s(" ").b(payee);
    }
    t.s("  ;").s(["", " ", "   "][sx::choose(3)]).b(&v).s("\n").s(BODY);
    check(&t, aux, payee, &v);
}
/// Every combination of parts, blanks and line ends.
#[no_mangle]
pub fn h_c12_shape() {
    let payees = ["", "Payee", "A", "Two words", "a  b", "Ünï ß", "2023-01-01", "100", "x;y", "x ; y", "(code) * z", "日本"];
    let aux = sx::flip();
    let p = payees[sx::choose(payees.len() as u64)];
    let notes = ["", "n", "a note  ; more", "Ä:b", "; x"];
    let n = notes[sx::choose(notes.len() as u64)];
    let mut t = T::new();
    t.s("2023-04-21").s(if aux { "=2022-12-31" } else { "" });
    if !p.is_empty() {
        t.sp([1, 2, 4][sx::choose(3)]).s(p);
    }
    if !n.is_empty() {
        t.sp([2, 5][sx::choose(2)]).s(";").sp([0, 1][sx::choose(2)]).s(n);
    }
    t.sp([0, 1, 3][sx::choose(3)]);
    let crlf = sx::flip();
    if crlf {
        t.s("\r\n  A  1 EUR\r\n  B\r\n");
    } else {
        t.s("\n").s(BODY);
    }
    check(&t, aux, p.as_bytes(), n.as_bytes());
}
/// Anything else in the place of the date is refused.
#[no_mangle]
pub fn h_c12_bad() {
    let n = 6 + sx::choose(sx::param(0, 5));
    let mut d = vec![sx::digit()];
    // the shape of a date broken in one place or another
    let good = b"2023-04-21";
    d[0] = b'2';
    for i in 1..n {
        let free = i + 4 >= n;
        d.push(if free { sx::byte(b"0123456789-/.x:") } else { good[i.min(9)] });
    }
    // a whole date is year-month-day, of one or two digits each
    let mut parts = 0;
    let mut digits = true;
    for c in &d {
        if *c == b'-' {
            parts += 1;
        } else if !(*c >= b'0' && *c <= b'9') {
            digits = false;
        }
    }
    let mut t = T::new();
    t.b(&d).s(" Payee\n").s(BODY);
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    sx::assert(digits && parts == 2, "only dates are read as dates");
    let x = j.xacts[0].date.unwrap();
    let nums: Vec<u32> = d.split(|c| *c == b'-').map(|s| s.iter().fold(0u32, |a, c| a * 10 + (*c - b'0') as u32)).collect();
    sx::assert(x.year() as u32 == nums[0] && x.month() == nums[1] && x.day() == nums[2], "the date is the one written");
}

/// Date and auxiliary date together, equal ones included; line ends and what follows do not matter.
#[no_mangle]
pub fn h_c12_both() {
    let mk = |k: usize| {
        let mut t = [&b"2023-0"[..], b"2024-1"][k].to_vec();
        let m = sx::byte(if k == 0 { b"123456789" } else { b"012" });
        t.push(m);
        t.push(b'-');
        let (a, b) = (sx::byte(b"012"), sx::byte(b"123456789"));
        t.extend([a, b]);
        let month = (m - b'0') as u32 + if k == 0 { 0 } else { 10 };
        let d = (a - b'0') as u32 * 10 + (b - b'0') as u32;
        // 29 February 2023
        sx::assume(!(k == 0 && month == 2 && d == 29));
        (t, [2023, 2024][k], month, d)
    };
    let a = mk(0);
    let b = mk(sx::choose(2));
    let tail = ["", " Payee  ; n"][sx::choose(2)];
    let mut t = T::new();
    t.b(&a.0).s("=").b(&b.0).s(tail).s("\n").s(BODY);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1, "the transaction is read");
    let x = &j.xacts[0];
    for (got, w, what) in [(x.date, &a, "date"), (x.aux_date, &b, "auxiliary date")] {
        match got {
            None => sx::assert(false, what),
            Some(g) => sx::assert(g.year() == w.1 && g.month() == w.2 && g.day() == w.3, what),
        }
    }
    sx::cover("end");
}
/// Headers of several transactions: each has its own.
#[no_mangle]
pub fn h_c12_many() {
    let n = sx::param(0, 3) as usize;
    let heads = [
        ("2023-01-05", None, "Unknown Payee", None),
        ("2023-01-05 Shop", None, "Shop", None),
        ("2023-01-05=2023-02-07 Shop", Some((2023, 2, 7)), "Shop", None),
        ("2023-01-05  ; note", None, "Unknown Payee", Some("note")),
        ("2023-01-05=2023-01-05  ; n", Some((2023, 1, 5)), "Unknown Payee", Some("n")),
        ("2023-01-05 Shop  ; x y", None, "Shop", Some("x y")),
    ];
    let mut t = T::new();
    let mut want = vec![];
    for _ in 0..n {
        let h = heads[sx::choose(6)];
        t.s(h.0).s("\n").s(BODY).s("\n");
        want.push(h);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == n, "number of transactions");
    for (x, h) in j.xacts.iter().zip(&want) {
        let d = x.date.unwrap();
        sx::assert(d.year() == 2023 && d.month() == 1 && d.day() == 5, "date");
        sx::assert(x.aux_date.map(|d| (d.year(), d.month(), d.day())) == h.1, "auxiliary date");
        sx::assert(x.payee == h.2, "payee");
        sx::assert(x.note.as_deref() == h.3, "note");
    }
    sx::cover("end");
}

/// Dates read on their own: the day as written at midnight, or an error, never a panic.
#[no_mangle]
pub fn h_c12_datetime() {
    let y = 1999 + sx::choose(2) as i32 * 401;
    let k = sx::choose(15) as u8;
    let (m, d) = ([b'0' + k / 10, b'0' + k % 10], [sx::digit(), sx::digit()]);
    let mut t = T::new();
    t.s(if y == 1999 { "1999" } else { "2400" }).s("-").b(&m).s("-").b(&d);
    let n = |x: [u8; 2]| (x[0] - b'0') as u32 * 10 + (x[1] - b'0') as u32;
    let (m, d) = (n(m), n(d));
    let days = if m == 2 { 28 + (y == 2400) as u32 } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 };
    let exists = m >= 1 && m <= 12 && d >= 1 && d <= days;
    match parser::parse_datetime(t.str()) {
        Err(_) => sx::assert(!exists, "a date that exists is read"),
        Ok(w) => {
            sx::assert(exists, "a date that does not exist is refused");
            sx::assert(w.year() == y && w.month() == m && w.day() == d, "the date as written");
            sx::assert(w.hour() == 0 && w.minute() == 0 && w.second() == 0, "at midnight");
            sx::cover("read");
        }
    }
    sx::cover("end");
}
/// Long payees and notes.
#[no_mangle]
pub fn h_c12_long() {
    let n = sx::param(0, 600) as usize;
    let set = but(b";");
    let p = if sx::flip() { long(n, &set) } else { b"Pa".to_vec() };
    let note = match sx::choose(3) {
        0 => vec![],
        1 => b"x".to_vec(),
        _ => long(n, &set),
    };
    let mut t = T::new();
    t.s("2023-02-03").s(["", "=2023-02-05"][sx::choose(2)]).s(" ").b(&p);
    if !note.is_empty() {
        t.s("  ; ").b(&note);
    }
    t.s("\n").s(BODY);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let x = &j.xacts[0];
    sx::assert(same(x.payee.as_bytes(), &p), "payee");
    match &x.note {
        None => sx::assert(note.is_empty(), "note"),
        Some(s) => sx::assert(same(s.as_bytes(), &note), "note"),
    }
    sx::cover("end");
}
/// Whatever features meet in a transaction: the header.
#[no_mangle]
pub fn h_c12_meet() {
    crate::mix::run(crate::mix::HEADER, sx::param(0, 2));
}
/// Text right after a date is not passed over.
#[no_mangle]
pub fn h_c12_after() {
    let n = 1 + sx::choose(sx::param(0, 2));
    let mut w = vec![sx::byte(&text_but(b" =0123456789"))];
    w.extend(word(n as usize - 1, &text_but(b"")));
    let k = sx::choose(3);
    let mut t = T::new();
    t.s(["2023-04-21", "2023-04-21=2023-04-22", "2023-4-2"][k]).b(&w).s([" Payee\n", "\n"][sx::choose(2)]).s(BODY);
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::assert(false, "only dates are read as dates");
}
