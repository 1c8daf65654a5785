//! Journals of any transactions: dates in any order, repeated payees, lines and transactions, unusual names, zeros.
use crate::{
    c02::{check_totals, Book},
    sx,
    util::*,
};
use chrono::Datelike;
use ledger_rs_lib::journal::Journal;

pub struct Entry {
    date: (i32, u32, u32),
    aux: bool,
    payee: &'static str,
    note: Option<&'static str>,
    posts: Vec<Want>,
    costs: Vec<Option<(Dec, &'static str)>>,
}
const DATES: [(&str, (i32, u32, u32)); 4] = [("2023-04-21", (2023, 4, 21)), ("2022-12-31", (2022, 12, 31)), ("2023-04-21", (2023, 4, 21)), ("2024-02-29", (2024, 2, 29))];
const PAYEES: [&str; 4] = ["A rather long payee", "P", "2023-01-01", "; x"];
const NAMES: [&str; 6] = ["A", "A:B", "|x", "#y:z", "*", "Ü b"];

/// A transaction with its text; `kind` picks its structure, the digits are symbolic.
pub fn entry(t: &mut T, kind: usize, turn: usize) -> Entry {
    let (d, date) = DATES[(kind + turn) % 4];
    let payee = PAYEES[(kind / 2 + turn) % 4];
    let aux = kind == 3;
    t.s(d).s(if aux { "=2023-05-05" } else { "" }).s(" ").s(payee);
    let note = (kind == 1).then_some("n");
    t.s(if kind == 1 { "  ; n" } else { "" }).s("\n");
    let mut e = Entry { date, aux, payee, note, posts: vec![], costs: vec![] };
    let name = |k: usize| NAMES[(k + turn) % 6];
    let mut sum = Dec::zero();
    let x = digits(turn % 2 == 1, 1, 0);
    let mut put = |t: &mut T, e: &mut Entry, a: &str, n: &Num, s: &'static str, cost: Option<(&Num, &'static str)>| {
        t.s("  ").s(a).s("  ").b(&n.t).s(" ").s(s);
        e.posts.push(Want { account: a.to_string(), amount: n.v, symbol: s.to_string() });
        match cost {
            None => {
                e.costs.push(None);
                sum = sum.add(n.v);
            }
            Some((p, c)) => {
                t.s(" @ ").b(&p.t).s(" ").s(c);
                e.costs.push(Some((n.v.mul(p.v), c)));
                sum = sum.add(n.v.mul(p.v));
            }
        }
        t.s("\n");
    };
    match kind {
        // the same line twice
        0 => {
            put(t, &mut e, name(0), &x, "EUR", None);
            put(t, &mut e, name(0), &x, "EUR", None);
        }
        // sums to zero
        1 => {
            put(t, &mut e, name(1), &x, "EUR", None);
            put(t, &mut e, name(2), &negated(&x), "EUR", None);
        }
        // zeros
        2 => {
            put(t, &mut e, name(2), &fixed("0"), "USD", None);
            put(t, &mut e, name(3), &fixed("0.00"), "USD", None);
        }
        // one priced
        3 => {
            put(t, &mut e, name(3), &fixed("2"), "ABC", Some((&x, "EUR")));
        }
        // the same account in and out
        _ => {
            put(t, &mut e, name(4), &x, "USD", None);
        }
    }
    let last = match kind {
        4 => name(4),
        0 => name(5),
        k => name(k + 3),
    };
    t.s("  ").s(last).s("\n\n");
    let s = match kind {
        2 | 4 => "USD",
        _ => "EUR",
    };
    e.posts.push(Want { account: last.to_string(), amount: sum.neg(), symbol: s.to_string() });
    e.costs.push(None);
    e
}
pub const KINDS: u64 = 5;

/// The journal holds exactly these transactions, in this order, and every reference and total is right.
pub fn check(j: &Journal, es: &[Entry]) {
    sx::assert(j.xacts.len() == es.len(), "number of transactions");
    let mut b = Book { rows: vec![] };
    for (x, e) in j.xacts.iter().zip(es) {
        let d = x.date.unwrap();
        sx::assert((d.year(), d.month(), d.day()) == e.date, "transactions come in the order of the text");
        sx::assert(x.aux_date.is_some() == e.aux, "auxiliary date");
        sx::assert(x.payee == e.payee, "payee");
        sx::assert(x.note.as_deref() == e.note, "note");
        sx::assert(x.posts.len() == e.posts.len(), "number of postings");
        for ((p, w), c) in x.posts.iter().zip(&e.posts).zip(&e.costs) {
            sx::assert(account(p).fullname() == w.account, "account of a posting");
            sx::assert(p.note.is_none(), "a posting without a note has none");
            match &p.amount {
                None => sx::assert(false, "every posting has an amount"),
                Some(a) => sx::assert(sym(a) == w.symbol && amt(a).eq(w.amount), "amount of a posting"),
            }
            match (&p.cost, c) {
                (None, None) => {}
                (Some(a), Some(c)) => sx::assert(sym(a) == c.1 && amt(a).eq(c.0), "cost of a posting"),
                _ => sx::assert(false, "cost of a posting"),
            }
            b.add(&w.account, &w.symbol, w.amount);
        }
    }
    consistent(j);
    if !es.is_empty() {
        check_totals(j, &b.sorted());
    }
}
