//! Balance report.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text, report};

/// Full names of an account and everything above it, the root first.
fn prefixes(name: &str) -> Vec<String> {
    let mut r = vec![String::new()];
    for (i, c) in name.char_indices() {
        if c == ':' {
            r.push(name[..i].to_string());
        }
    }
    r.push(name.to_string());
    r
}
pub struct Book {
    pub rows: Vec<(String, Sums)>,
}
impl Book {
    pub fn add(&mut self, name: &str, s: &str, d: Dec) {
        for p in prefixes(name) {
            let i = match self.rows.iter().position(|r| r.0 == p) {
                Some(i) => i,
                None => {
                    self.rows.push((p, Sums::new()));
                    self.rows.len() - 1
                }
            };
            self.rows[i].1.add(s, d);
        }
    }
    pub fn sorted(mut self) -> Vec<(String, Sums)> {
        self.rows.sort_by(|a, b| {
            let (x, y): (Vec<&str>, Vec<&str>) = (a.0.split(':').collect(), b.0.split(':').collect());
            if a.0.is_empty() || b.0.is_empty() {
                a.0.len().cmp(&b.0.len())
            } else {
                x.cmp(&y)
            }
        });
        self.rows
    }
}

pub fn check_text(j: &Journal, rows: &[(String, Sums)]) {
    let lines = report::balance_report(j);
    sx::assert(lines.len() == rows.len(), "one line for every account");
    for (l, r) in lines.iter().zip(rows) {
        let head = format!("Account {} has balance ", r.0);
        sx::assert(l.len() >= head.len() && same(&l.as_bytes()[..head.len()], head.as_bytes()), "accounts come in tree order");
        check_amounts(&read_amounts(&l[head.len()..]), &r.1, "balance in the report");
    }
}
pub fn check_totals(j: &Journal, rows: &[(String, Sums)]) {
    let accounts = tree(j);
    sx::assert(accounts.len() == rows.len(), "the tree holds the accounts used and their parents");
    for (a, r) in accounts.iter().zip(rows) {
        sx::assert(a.fullname() == r.0, "accounts come in tree order");
        check_amounts(&listed(&a.total().amounts), &r.1, "total of an account and those below it");
    }
}

const PAIRS: [(&str, &str); 8] = [
    ("A", "D"),
    ("A:B", "A"),
    ("A:B:C", "D:E"),
    ("A:C", "A:B"),
    ("D:E", "D"),
    ("A:B", "D"),
    ("Z:Y:X:W:V", "A:B:C"),
    ("A B", "A"),
];
fn journal(n: usize, shapes: &[(usize, usize)], symbols: &[&str]) -> (Journal, Vec<(String, Sums)>) {
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    for i in 0..n {
        let (x, y) = PAIRS[(sx::choose(PAIRS.len() as u64) + i) % PAIRS.len()];
        let s = symbols[sx::choose(symbols.len() as u64)];
        let v = num(shapes);
        t.s("2023-01-0").b(&[b'1' + i as u8]).s(" P\n  ").s(x).s("  ");
        write_amount(&mut t, if s.is_empty() { Lay::Bare } else { Lay::NumSpSym }, &v, s.as_bytes());
        t.s("\n  ").s(y).s("\n\n");
        b.add(x, s, v.v);
        b.add(y, s, v.v.neg());
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    (j, b.sorted())
}

/// Totals in the model.
#[no_mangle]
pub fn h_c02_totals() {
    let n = sx::param(0, 2) as usize;
    let (j, rows) = journal(n, &[(2, 0)], &["EUR", "USD"]);
    check_totals(&j, &rows);
    consistent(&j);
    sx::cover("end");
}
/// Report lines as printed.
#[no_mangle]
pub fn h_c02_text() {
    let n = 1 + sx::choose(sx::param(0, 2));
    let (j, rows) = journal(n, if n == 1 { &[(2, 0), (1, 2)] } else { &[(1, 0)] }, if n == 1 { &["EUR", "$", ""] } else { &["EUR", "USD"] });
    check_text(&j, &rows);
    if n == 1 {
        for l in report::balance_report(&j) {
            sx::out(&l);
        }
    }
    sx::cover("end");
}
/// Several commodities in one account and its children, and postings that are not elided.
#[no_mangle]
pub fn h_c02_mixed() {
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    let symbols = ["EUR", "USD", "X"];
    let accs = ["A:B", "A", "A:B:C", "A:D"];
    let turn = sx::choose(4);
    let n = sx::param(0, 3) as usize;
    for i in 0..n {
        let s = symbols[if i == 0 { 0 } else { sx::choose(3) }];
        let a = accs[(turn + i) % 4];
        let v = digits(i % 2 == 1, 1, i % 3);
        t.s("2023-01-0").b(&[b'1' + i as u8]).s(" P\n  ").s(a).s("  ");
        write_amount(&mut t, Lay::NumSpSym, &v, s.as_bytes());
        // an amount that is given, not calculated
        let w = Num { t: if v.t[0] == b'-' { v.t[1..].to_vec() } else { [&b"-"[..], &v.t].concat() }, v: v.v.neg() };
        t.s("\n  Q  ");
        write_amount(&mut t, Lay::NumSpSym, &w, s.as_bytes());
        t.s("\n\n");
        b.add(a, s, v.v);
        b.add("Q", s, w.v);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check_totals(&j, &b.sorted());
    sx::cover("end");
}
/// Bought and sold shares: the report shows the amounts, not the costs.
#[no_mangle]
pub fn h_c02_cost() {
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    let q = digits(false, 1, 0);
    let p = fixed(["2", "2.5"][sx::choose(2)]);
    t.s("2023-01-01 Buy\n  Assets:Stock  ").b(&q.t).s(" ABC @ ").b(&p.t).s(" EUR\n  Assets:Cash\n\n");
    b.add("Assets:Stock", "ABC", q.v);
    b.add("Assets:Cash", "EUR", q.v.mul(p.v).neg());
    if sx::flip() {
        t.s("2023-02-01 Sell\n  Assets:Stock  -1 ABC @@ 7 EUR\n  Assets:Cash  7 EUR\n\n");
        b.add("Assets:Stock", "ABC", Dec::int(-1));
        b.add("Assets:Cash", "EUR", Dec::int(7));
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let rows = b.sorted();
    check_totals(&j, &rows);
    check_text(&j, &rows);
    sx::cover("end");
}
/// Siblings with any names come in order of their names.
#[no_mangle]
pub fn h_c02_order() {
    let set = b"abzABZ09 &-_";
    let n = sx::param(0, 3) as usize;
    let mut names: Vec<Vec<u8>> = vec![];
    let mut t = T::new();
    t.s("2023-01-01 P\n");
    for i in 0..n {
        let mut w = vec![b'N'];
        w.extend(word(1 + (i == 0) as usize, set));
        // no double space
        sx::assume(!(w.len() == 3 && w[1] == b' ' && w[2] == b' '));
        sx::assume(w[w.len() - 1] != b' ');
        t.s("  Top:").b(&w).s("  1 EUR\n");
        names.push(w);
    }
    t.s("  Top\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let lines = report::balance_report(&j);
    let mut k: Vec<usize> = (0..n).collect();
    // insertion sort of the distinct names
    k.sort_by(|a, b| names[*a].cmp(&names[*b]));
    let mut rows: Vec<(Vec<u8>, i128)> = vec![];
    for i in k {
        match rows.last_mut() {
            Some(l) if l.0 == names[i] => l.1 += 1,
            _ => rows.push((names[i].clone(), 1)),
        }
    }
    sx::assert(lines.len() == rows.len() + 2, "one line for every account");
    for (i, r) in rows.iter().enumerate() {
        let mut want = b"Account Top:".to_vec();
        want.extend(&r.0);
        want.extend(format!(" has balance {} EUR", r.1).as_bytes());
        sx::assert(same(lines[i + 2].as_bytes(), &want), "siblings come in order of their names");
    }
    sx::cover("end");
}
/// Amounts without a commodity next to others in one account: the report tells them apart.
#[no_mangle]
pub fn h_c02_bare() {
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    let symbols = ["", "EUR", "$"];
    let first = sx::choose(3);
    let n = 2 + sx::choose(2);
    for i in 0..n {
        let s = symbols[(first + i) % 3];
        let v = digits(sx::flip(), 1 + (i == 0) as usize, if i == 1 { 1 } else { 0 });
        let a = if i == 1 { "A:B" } else { "A" };
        t.s("2023-01-0").b(&[b'1' + i as u8]).s(" P\n  ").s(a).s("  ");
        write_amount(&mut t, if s.is_empty() { Lay::Bare } else { Lay::NumSpSym }, &v, s.as_bytes());
        t.s("\n  Q\n\n");
        b.add(a, s, v.v);
        b.add("Q", s, v.v.neg());
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let rows = b.sorted();
    check_totals(&j, &rows);
    check_text(&j, &rows);
    sx::cover("end");
}
/// Many commodities over deep and wide trees.
#[no_mangle]
pub fn h_c02_wide() {
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    let symbols = ["EUR", "USD", "M", "NN", "OOO", "PPPP", "kr", "zl"];
    let n = sx::param(0, 6) as usize;
    let tree = sx::choose(3);
    let turn = sx::choose(2);
    let names: [&[&str]; 3] = [
        &["A:B", "A:C", "A:D", "A", "A:E", "A:B"],
        &["A:B:C:D:E:F:G:H", "A:B:C:D:E:F:G", "A:B:C:D", "A:B", "A:B:C:D:E:F:G:I", "A"],
        &["A:A:A:A:A", "A:A", "A", "A:A:A", "A:A:A:A:A:A:A", "A:A:B"],
    ];
    for i in 0..2 * n {
        let s = symbols[(i + turn * (i / n)) % n];
        let a = names[tree][if i < n { turn } else { 2 + i % 4 }];
        // the last ones are symbolic
        let v = if i == 0 || i + 2 >= 2 * n { digits(i % 2 == 1, 1, i % 3) } else { fixed(["7", "-2.5", "13", "0.04"][i % 4]) };
        t.s("2023-01-01 P\n  ").s(a).s("  ");
        write_amount(&mut t, Lay::NumSpSym, &v, s.as_bytes());
        t.s("\n  Q:R\n\n");
        b.add(a, s, v.v);
        b.add("Q:R", s, v.v.neg());
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let rows = b.sorted();
    check_totals(&j, &rows);
    check_text(&j, &rows);
    sx::cover("end");
}
/// Many accounts, commodities and postings.
#[no_mangle]
pub fn h_c02_large() {
    let n = sx::param(0, 120) as usize;
    let mut t = T::new();
    let mut b = Book { rows: vec![] };
    let shape = sx::choose(4);
    let x = digits(false, 1, 1);
    let letter = |i: usize| ((b'a' + (i % 26) as u8) as char).to_string();
    for i in 0..n {
        let (a, s) = match shape {
            // many siblings
            0 => (format!("Top:{}{}", letter(i), letter(i / 26)), "EUR".to_string()),
            // many postings to one account
            1 => ("Top:One".to_string(), ["EUR", "USD"][i % 2].to_string()),
            // many commodities in one account
            2 => (["Top:One", "Top"][i % 2].to_string(), format!("S{}{}", letter(i / 2), letter(i / 52))),
            // a deep tree
            _ => (vec!["d"; 1 + i / 2].join(":"), "EUR".to_string()),
        };
        let v = if i == 0 || i == n / 2 || i + 1 == n { x.clone() } else { fixed(["7", "-2.5", "13", "0.04"][i % 4]) };
        t.s("2023-01-01 P\n  ").s(&a).s("  ");
        write_amount(&mut t, Lay::NumSpSym, &v, s.as_bytes());
        t.s("\n  Q:R\n\n");
        b.add(&a, &s, v.v);
        b.add("Q:R", &s, v.v.neg());
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let rows = b.sorted();
    check_totals(&j, &rows);
    check_text(&j, &rows);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the totals.
#[no_mangle]
pub fn h_c02_meet() {
    crate::mix::run(crate::mix::TOTALS, sx::param(0, 2));
}
/// Whatever features meet in a transaction: the report.
#[no_mangle]
pub fn h_c02_meet_text() {
    crate::mix::run(crate::mix::REPORT, sx::param(0, 2));
}
