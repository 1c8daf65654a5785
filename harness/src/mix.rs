//! Journals in which any few of many features meet: each feature has a plain form and others; a path gives up to
//! k of them another form (k: a parameter), so all combinations of k features are met. Each property looks at its own aspect.
use crate::{
    c02::{check_text, check_totals, Book},
    c06::{check_price, day, price},
    sx,
    util::*,
};
use chrono::Datelike;
use ledger_rs_lib::{amount::Amount, journal::Journal, parse_file, parse_text, parser, post::Post, report, run as command, xact::{self, Xact}};
use std::io::Cursor;

pub const HEADER: u32 = 1;
pub const STATED: u32 = 2;
pub const ELIDED: u32 = 4;
pub const COSTS: u32 = 8;
pub const PRICES: u32 = 16;
pub const NOTES: u32 = 32;
pub const TOTALS: u32 = 64;
pub const REFS: u32 = 128;
pub const COUNT: u32 = 256;
pub const LOTS: u32 = 512;
pub const SYMBOLS: u32 = 1024;
pub const COMMAND: u32 = 2048;
pub const EXCHANGE: u32 = 4096;
pub const REPORT: u32 = 8192;
/// The transaction is built by calls.
pub const CALLS: u32 = 16384;

const AUX: usize = 0;
const PAYEE: usize = 1;
const HNOTE: usize = 2;
const XNOTE: usize = 3;
const PNOTE: usize = 4;
const INLINE: usize = 5;
const ELIDE: usize = 6;
const COST: usize = 7;
const LOT: usize = 8;
const LAYOUT: usize = 9;
const NUMBER: usize = 10;
const NAMES: usize = 11;
const INDENT: usize = 12;
const GAP: usize = 13;
const EOL: usize = 14;
const BEFORE: usize = 15;
const AFTER: usize = 16;
const SIZE: usize = 17;
const TRAIL: usize = 18;
const ROUTE: usize = 19;
const DATE: usize = 20;
const N: usize = 21;
/// Other forms of each feature.
const FORMS: [u64; N] = [2, 5, 2, 2, 3, 2, 4, 3, 4, 4, 5, 5, 3, 2, 2, 7, 4, 3, 3, 4, 3];

struct Line {
    account: String,
    /// None: elided
    amount: Option<Num>,
    symbol: &'static str,
    cost: Option<(Num, bool)>,
    lot: usize,
    note: Option<&'static str>,
    inline: bool,
}
struct Want1 {
    date: (i32, u32, u32),
    aux: Option<(i32, u32, u32)>,
    payee: &'static str,
    note: Option<Option<&'static str>>,
    lines: Vec<(String, Dec, &'static str, bool, Option<Dec>, Option<Option<&'static str>>)>,
}

fn other(t: &mut T, header: &str, date: (i32, u32, u32), payee: &'static str, e: &str) -> Want1 {
    let x = digits(false, 1, 0);
    t.s(header).s(e).s("  B  ").b(&x.t).s(" EUR").s(e).s("  Z:Y").s(e);
    Want1 {
        date,
        aux: None,
        payee,
        note: Some(None),
        lines: vec![("B".into(), x.v, "EUR", false, None, Some(None)), ("Z:Y".into(), x.v.neg(), "EUR", true, None, Some(None))],
    }
}

pub fn run(aspects: u32, k: u64) {
    let mut f = [0usize; N];
    let mut from = 0;
    for _ in 0..k {
        if from == N {
            break;
        }
        let i = from + sx::choose((N - from) as u64);
        f[i] = 1 + sx::choose(FORMS[i]);
        from = i + 1;
    }
    if aspects & CALLS != 0 {
        f[LOT] = 0;
        f[INLINE] = 0;
    }
    go(aspects, &f);
}

fn go(aspects: u32, f: &[usize; N]) {
    let e = if f[EOL] == 1 { "\r\n" } else { "\n" };
    let mut want: Vec<Want1> = vec![];
    let mut t = T::new();
    let date = [("2023-04-21", (2023, 4, 21)), ("2024-02-29", (2024, 2, 29)), ("1999-12-31", (1999, 12, 31)), ("2023-1-5", (2023, 1, 5))][f[DATE]];

    // what comes before
    let mut p_before = false;
    match f[BEFORE] {
        1 => {
            t.s("; comment 2023-01-01").s(e);
        }
        2 => {
            t.s(e).s(e);
        }
        3 => {
            t.s("P 1990-01-01 ABC 7 EUR").s(e);
            p_before = true;
        }
        4 => {
            want.push(other(&mut t, "2023-01-02 Other  ; note", (2023, 1, 2), "Other", e));
            want[0].note = Some(Some("note"));
            t.s(e);
        }
        5 => {
            // the same header
            let h = format!("{} Payee", date.0);
            want.push(other(&mut t, &h, date.1, "Payee", e));
            t.s(e);
        }
        6 => {
            // ended by blanks
            want.push(other(&mut t, "2023-01-02", (2023, 1, 2), "Unknown Payee", e));
            t.s("   ").s(e);
        }
        7 => {
            t.s("# x").s(e).s("| y").s(e).s("* z").s(e).s(" \t").s(e);
        }
        _ => {}
    }
    let split = t.0.len();

    // header
    let payee = ["Payee", "", "Shop ; x", "* (12) Ü 5 EUR", "P", "a  b"][f[PAYEE]];
    t.s(date.0);
    let aux = match f[AUX] {
        0 => None,
        1 => {
            t.s("=2023-05-01");
            Some((2023, 5, 1))
        }
        _ => {
            t.s("=").s(date.0);
            Some(date.1)
        }
    };
    if !payee.is_empty() {
        t.s(" ").s(payee);
    }
    let mut note: Option<Option<&'static str>> = Some(None);
    match f[HNOTE] {
        1 => {
            t.s("  ; header 1 EUR");
            note = Some(Some("header 1 EUR"));
        }
        2 => {
            t.s("  ;");
        }
        _ => {}
    }
    t.s(if f[TRAIL] == 3 { "   " } else { "" }).s(e);
    let indent = ["  ", "    ", " ", "       "][f[INDENT]];
    match f[XNOTE] {
        1 => {
            t.s(indent).s("; of the whole").s(e);
            // the header's own note and this one: which of them is kept is not claimed
            note = if f[HNOTE] == 1 { None } else { Some(Some("of the whole")) };
        }
        2 => {
            t.s(indent).s(";").s(e);
        }
        _ => {}
    }

    // postings
    // no amount left out, two commodities, no cost
    let implied = f[ELIDE] == 4;
    let cost = if implied { 0 } else { f[COST] };
    let lay = match f[LAYOUT] {
        0 => Lay::NumSpSym,
        1 => Lay::NumSym,
        2 => Lay::SymNum,
        3 => Lay::SymSpNum,
        _ if cost > 0 || f[LOT] > 0 || implied => Lay::NumSym,
        _ => Lay::Bare,
    };
    let priced: &'static str = if cost > 0 || f[LOT] > 0 || implied { "ABC" } else { "EUR" };
    let plain: &'static str = if cost > 0 || f[LOT] == 0 || implied { "EUR" } else { "ABC" };
    let names: [&str; 3] = [["A", "B", "C"], ["A", "A", "A"], ["A", "A:B", "A:B:C"], ["Ü b:c d", "Ü b", "e: f"], ["*x", "|y:1", "(z)"], ["B", "Z:Y", "Z"]][f[NAMES]];
    // an amount with a cost is known, its price is not
    let first = if implied {
        fixed(["2", "0.00", "-4", "1000000", "25", "-0.08"][f[NUMBER]])
    } else if cost > 0 {
        fixed(["2", "0.00", "-4", "1000000.5", "25", "-0.08"][f[NUMBER]])
    } else {
        match f[NUMBER] {
            0 => digits(false, 1, 1),
            1 => fixed("0.00"),
            2 => digits(true, 1, 1),
            3 => {
                let mut n = fixed("123456789012345.6789");
                let d = digits(false, 1, 0);
                n.t.push(d.t[0]);
                n.v = Dec { m: n.v.m.wrapping_mul(10).wrapping_add(d.v.m), s: n.v.s + 1 };
                n
            }
            4 => digits(false, 2, 0),
            _ => fixed("-0"),
        }
    };
    let elide = if cost > 0 && f[ELIDE] == 3 { 0 } else { f[ELIDE] };
    let mut n = [2, 1, 6, 20][f[SIZE]];
    if elide >= 3 {
        n = n.max(2);
    }
    let mut lines: Vec<Line> = vec![];
    for i in 0..n {
        let x = if i == 0 || (elide == 3 && i % 2 == 0) {
            first.clone()
        } else if elide == 3 {
            negated(&first)
        } else if i == 1 && implied {
            let d = sx::byte(b"123456789");
            Num { t: vec![d, b'.', b'5'], v: Dec { m: ((d - b'0') as i128).wrapping_mul(10).wrapping_add(5), s: 1 } }
        } else if i == 1 {
            fixed("3.5")
        } else {
            fixed(["-1", "10", "0.25", "7"][i % 4])
        };
        let c = match (cost, i) {
            (1, 0) | (3, 0) | (3, 1) => Some(true),
            (2, 0) => Some(false),
            _ => None,
        };
        let c = c.map(|per_unit| {
            let d = sx::byte(b"123456789");
            (Num { t: vec![d, b'.', b'5'], v: Dec { m: ((d - b'0') as i128).wrapping_mul(10).wrapping_add(5), s: 1 } }, per_unit)
        });
        let symbol = if lay == Lay::Bare {
            ""
        } else if i == 0 || c.is_some() {
            priced
        } else {
            plain
        };
        lines.push(Line { account: names[i % 3].into(), amount: Some(x), symbol, cost: c, lot: if i == 0 { f[LOT] } else { 0 }, note: None, inline: false });
    }
    let blank = Line { account: names[2].into(), amount: None, symbol: if lay == Lay::Bare { "" } else { plain }, cost: None, lot: 0, note: None, inline: false };
    match elide {
        0 => lines.push(blank),
        1 => lines.insert(0, blank),
        2 => lines.insert(n / 2, blank),
        _ => {}
    }
    let last = lines.len() - 1;
    match f[PNOTE] {
        1 => lines[0].note = Some("of the first"),
        2 => lines[last].note = Some("of the last  ; x"),
        3 => {
            for l in lines.iter_mut() {
                l.note = Some("of each");
            }
        }
        _ => {}
    }
    match f[INLINE] {
        1 => lines[0].inline = true,
        2 => lines[last].inline = true,
        _ => {}
    }
    let gap = ["  ", "   ", "         "][f[GAP]];
    let mut sum = Dec::zero();
    for l in &lines {
        t.s(indent).s(&l.account);
        if let Some(x) = &l.amount {
            t.s(gap);
            write_amount(&mut t, lay, x, l.symbol.as_bytes());
            match l.lot {
                1 => t.s(" {2.5 USD}"),
                2 => t.s(" [2022-02-02]"),
                3 => t.s(" {2.5 USD} [2022-02-02]"),
                4 => t.s(" [2022-02-02] {USD 2.5}"),
                _ => &mut t,
            };
            match &l.cost {
                None => sum = sum.add(x.v),
                Some((c, per_unit)) => {
                    t.s(if *per_unit { " @ " } else { " @@ " });
                    write_amount(&mut t, lay, c, b"EUR");
                    sum = sum.add(if *per_unit { x.v.mul(c.v) } else { c.v });
                }
            }
            t.s(if f[TRAIL] == 1 { "  " } else { "" });
        } else {
            t.s(if f[TRAIL] == 2 { "  " } else { "" });
        }
        t.s(if l.inline { "  ; on the line 5 EUR" } else { "" });
        t.s(e);
        if let Some(note) = l.note {
            t.s(indent).s("; ").s(note).s(e);
        }
    }
    let mut w = Want1 { date: date.1, aux, payee: if payee.is_empty() { "Unknown Payee" } else { payee }, note, lines: vec![] };
    let mut latest: Option<Dec> = None;
    for l in &lines {
        let noted = if l.inline && l.note.is_none() { None } else { Some(l.note) };
        let cost = match (&l.cost, &l.amount) {
            (Some((c, true)), Some(x)) => {
                if !x.v.is_zero() {
                    latest = Some(c.v);
                }
                Some(x.v.mul(c.v))
            }
            (Some((c, false)), Some(x)) => {
                // the unit price of a total is looked at in C06's other harnesses
                latest = if x.v.m.abs() == 2 && x.v.s == 0 { Some(Dec { m: c.v.m.wrapping_mul(5), s: c.v.s + 1 }) } else { None };
                Some(c.v)
            }
            _ => None,
        };
        let (v, elided) = match &l.amount {
            Some(x) => (x.v, false),
            None => (sum.neg(), true),
        };
        w.lines.push((l.account.clone(), v, l.symbol, elided, cost, noted));
    }
    if implied && !first.v.is_zero() {
        // all but the first are in the other commodity, and their sum is positive
        let mut y = Dec::zero();
        for l in &w.lines[1..] {
            y = y.add(l.1);
        }
        let inverse = fixed(["0.5", "0", "0.25", "0.000001", "0.04", "12.5"][f[NUMBER]]).v;
        latest = Some(y.mul(inverse));
        w.lines[0].4 = Some(if first.t[0] == b'-' { y.neg() } else { y });
    }
    want.push(w);

    // what comes after
    let mut p_after = false;
    let second = t.0.len();
    match f[AFTER] {
        1 => {
            t.s(e).s("; the end").s(e);
        }
        2 => {
            t.s(e).s("P 2029-06-01 12:30:00 ABC 8 EUR").s(e);
            p_after = true;
        }
        3 => {
            t.s(e);
            want.push(other(&mut t, "2023-07-01 After", (2023, 7, 1), "After", e));
        }
        4 => {
            t.s("    ").s(e).s(e).s("  ").s(e);
        }
        _ => {}
    }
    if f[EOL] == 2 {
        t.0.pop();
    }

    // read it
    let mut j = Journal::new();
    match f[ROUTE] {
        _ if aspects & CALLS != 0 => {
            parse_text(utf8(&t.0[..split]), &mut j);
            let n = if f[XNOTE] == 1 { "of the whole" } else if f[HNOTE] == 1 { "header 1 EUR" } else { "" };
            let a = ["", "2023-05-01", date.0][f[AUX]];
            let mut x = if f[ROUTE] == 1 { Xact::create(date.0, a, payee, "") } else { Xact::create(date.0, a, payee, n) };
            if f[ROUTE] == 1 && !n.is_empty() {
                x.add_note(n);
            }
            let mut posts = vec![];
            for l in &lines {
                let account = j.register_account(&l.account).unwrap();
                let amount = l.amount.as_ref().map(|x| parser::parse_amount_parts(utf8(&x.t), l.symbol, &mut j).unwrap());
                let cost = l.cost.as_ref().map(|(c, per_unit)| {
                    let c = parser::parse_amount_parts(utf8(&c.t), "EUR", &mut j).unwrap();
                    if *per_unit {
                        c * amount.unwrap()
                    } else {
                        c
                    }
                });
                posts.push(Post::new(account, std::ptr::null(), amount, cost, l.note));
            }
            let ptr: *mut Xact;
            if f[ROUTE] == 2 {
                // the postings come after the transaction is in the journal
                ptr = j.add_xact(x) as *const Xact as *mut Xact;
                for p in posts {
                    unsafe { &mut *ptr }.add_post(p);
                }
            } else {
                for p in posts {
                    x.add_post(p);
                }
                ptr = j.add_xact(x) as *const Xact as *mut Xact;
            }
            xact::finalize(ptr, &mut j);
            parse_text(utf8(&t.0[second.min(t.0.len())..]), &mut j);
        }
        0 => parse_text(t.str(), &mut j),
        1 => {
            let n = j.read(Cursor::new(t.str()));
            sx::assert(aspects & COUNT == 0 || n == want.len(), "number of transactions read");
        }
        2 => {
            sx::file("all.ledger", t.str());
            parse_file("all.ledger", &mut j);
        }
        3 => {
            parse_text(utf8(&t.0[..split]), &mut j);
            parse_text(utf8(&t.0[split..second.min(t.0.len())]), &mut j);
            parse_text(utf8(&t.0[second.min(t.0.len())..]), &mut j);
        }
        _ => {
            sx::file("part.ledger", utf8(&t.0[split..]));
            let mut m = T::new();
            m.b(&t.0[..split]).s("include part.ledger\n");
            parse_text(m.str(), &mut j);
        }
    }
    if aspects & SYMBOLS != 0 {
        // exactly the symbols of the text
        let mut used: Vec<&str> = vec![];
        let mut add = |s: &'static str| {
            if !s.is_empty() && !used.contains(&s) {
                used.push(s);
            }
        };
        for w in &want {
            for l in &w.lines {
                add(l.2);
                if l.4.is_some() {
                    add("EUR");
                }
            }
        }
        if p_before || p_after {
            add("ABC");
            add("EUR");
        }
        if matches!(f[LOT], 1 | 3 | 4) {
            add("USD");
        }
        sx::assert(j.commodity_pool.len() == used.len(), "the pool holds the symbols of the text");
        for s in used {
            match j.commodity_pool.find(s) {
                None => sx::assert(false, "a symbol of the text is known"),
                Some(c) => sx::assert(c.symbol == s && j.commodity_pool.find_index(s).map(|i| j.commodity_pool.get_by_index(i) as *const _) == Some(c as *const _), "a symbol stands for its commodity"),
            }
        }
        consistent(&j);
    }
    if aspects & COMMAND != 0 {
        sx::file("all.ledger", t.str());
        let args = |v: &str| vec![v.to_string(), "-f".to_string(), "all.ledger".to_string()];
        let mut names = report::report_accounts(&j);
        names.sort();
        for (got, expected) in [(command(args("bal")), report::balance_report(&j)), (command(args("accounts")), names)] {
            sx::assert(got.len() == expected.len(), "the command reports on the file");
            for (a, b) in got.iter().zip(&expected) {
                sx::assert(same(a.as_bytes(), b.as_bytes()), "the command reports on the file");
            }
        }
    }
    check(aspects, &j, &want, f);

    let bare = lay == Lay::Bare;
    if aspects & PRICES != 0 && !implied || aspects & EXCHANGE != 0 && cost == 0 {
        if p_after {
            let at = day(2029, 6, 1).date().and_hms_opt(12, 30, 0).unwrap();
            check_price(&j, "ABC", "EUR", at, Dec::int(8));
        } else if cost == 2 && latest.is_none() {
            // not looked at
        } else if let Some(p) = latest {
            check_price(&j, "ABC", "EUR", day(date.1 .0, date.1 .1, date.1 .2), p);
        } else if p_before {
            check_price(&j, "ABC", "EUR", day(1990, 1, 1), Dec::int(7));
        } else {
            sx::assert(price(&j, "ABC", "EUR").is_none(), "no price is known where none was stated");
        }
    }
    if aspects & LOTS != 0 && !bare {
        // the basis of 10 units
        let abc = j.commodity_pool.find_or_create("ABC", None);
        let eur = j.commodity_pool.find_or_create("EUR", None);
        let (b, _) = j.commodity_pool.exchange(&Amount::new(10.into(), Some(abc)), &Amount::new(4.into(), Some(eur)), true, day(2024, 1, 1));
        let stated = matches!(f[LOT], 1 | 3 | 4);
        sx::assert(sym(&b.basis_cost) == if stated { "USD" } else { "EUR" }, "commodity of the basis cost");
        sx::assert(amt(&b.basis_cost).eq(Dec::int(if stated { 25 } else { 40 })), "the basis cost is that of the lot price");
    }
    sx::cover("end");
}

fn check(aspects: u32, j: &Journal, want: &[Want1], f: &[usize; N]) {
    let has = |a: u32| aspects & a != 0;
    if has(COUNT) {
        sx::assert(j.xacts.len() == want.len(), "number of transactions");
    }
    let mut b = Book { rows: vec![] };
    for (i, w) in want.iter().enumerate() {
        let Some(x) = j.xacts.get(i) else { return };
        let ymd = |d: chrono::NaiveDate| (d.year(), d.month(), d.day());
        if has(HEADER) {
            sx::assert(x.date.map(ymd) == Some(w.date), "date");
            sx::assert(x.aux_date.map(ymd) == w.aux, "auxiliary date");
            sx::assert(x.payee == w.payee, "payee");
            if f[XNOTE] == 0 {
                sx::assert(x.note.as_deref() == w.note.unwrap(), "note of the header");
            }
        }
        if has(NOTES) {
            if let Some(n) = w.note {
                sx::assert(x.note.as_deref() == n, "note of a transaction");
            }
        }
        if has(COUNT) {
            sx::assert(x.posts.len() == w.lines.len(), "number of postings");
        }
        for (k, (account_, v, symbol, elided, cost, note)) in w.lines.iter().enumerate() {
            b.add(account_, symbol, *v);
            let Some(p) = x.posts.get(k) else { return };
            if has(STATED) {
                sx::assert(account(p).fullname() == account_, "account of a posting");
            }
            if has(if *elided { ELIDED } else { STATED | ELIDED }) {
                match &p.amount {
                    None => sx::assert(false, "every posting has an amount"),
                    Some(a) => {
                        sx::assert(sym(a) == *symbol, "commodity of a posting");
                        sx::assert(amt(a).eq(*v), if *elided { "the elided amount is the negated sum" } else { "a stated amount stays as written" });
                    }
                }
            }
            let implied = f[ELIDE] == 4;
            if has(COSTS) && !implied || has(EXCHANGE) && (implied || f[COST] == 0) {
                match (&p.cost, cost) {
                    (None, None) => {}
                    (Some(a), Some(c)) => {
                        sx::assert(sym(a) == "EUR", "commodity of a cost");
                        sx::assert(amt(a).eq(*c), "cost of a posting");
                    }
                    (None, Some(_)) => sx::assert(false, "a stated cost is kept"),
                    (Some(_), None) => sx::assert(false, "a posting without a cost has none"),
                }
            }
            if has(NOTES) {
                if let Some(n) = note {
                    sx::assert(p.note.as_deref() == *n, "note of a posting");
                }
            }
        }
    }
    if has(REFS) {
        consistent(j);
    }
    if has(TOTALS) {
        let rows = b.sorted();
        check_totals(j, &rows);
    } else if has(REPORT) {
        check_text(j, &b.sorted());
    }
}
