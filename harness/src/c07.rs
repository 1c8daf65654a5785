//! Exchanges of two commodities without a stated cost.
use crate::{
    c06::{check_amount, check_price, day, price},
    sx,
    util::*,
};
use ledger_rs_lib::{journal::Journal, parse_text};

const XS: [&str; 10] = ["1", "-2", "4", "-5", "8", "10", "-20", "0.5", "50", "-1.25"];

fn abs(d: Dec) -> Dec {
    if d.m < 0 {
        d.neg()
    } else {
        d
    }
}
struct P {
    n: Num,
    s: &'static str,
}
/// The rule: the first posting's commodity is priced in the other one.
fn check(j: &Journal, ps: &[P]) {
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == ps.len(), "all postings are read");
    let posts = &j.xacts[0].posts;
    let first = ps[0].s;
    let other = ps.iter().find(|p| p.s != first).map(|p| p.s);
    let (mut x, mut y) = (Dec::zero(), Dec::zero());
    for p in ps {
        if p.s == first {
            x = x.add(p.n.v)
        } else {
            y = y.add(p.n.v)
        }
    }
    for (p, w) in posts.iter().zip(ps) {
        check_amount(&p.amount, w.s, w.n.v, "a stated amount is kept");
        if w.s == first && other.is_some() && !x.is_zero() && !y.is_zero() {
            match &p.cost {
                None => sx::assert(false, "the postings of the first commodity get a cost"),
                Some(c) => {
                    sx::assert(sym(c) == other.unwrap(), "commodity of the cost");
                    // cost / amount = |y| / |x|
                    sx::assert(amt(c).mul(abs(x)).eq(w.n.v.mul(abs(y))), "the cost is the share of the other commodity");
                }
            }
        } else {
            sx::assert(p.cost.is_none(), "no cost is made up");
        }
    }
    if let Some(o) = other {
        if !x.is_zero() && !y.is_zero() {
            match price(j, first, o) {
                None => sx::assert(false, "the price of the exchange is recorded"),
                Some((d, a)) => {
                    sx::assert(d == day(2023, 3, 31), "date of the price");
                    sx::assert(sym(&a) == o && amt(&a).mul(abs(x)).eq(abs(y)), "the price of the exchange is recorded");
                }
            }
        } else {
            sx::assert(price(j, first, o).is_none(), "no price is made up");
        }
        sx::assert(price(j, o, first).is_none(), "no price is made up for the other direction");
    }
    consistent(j);
    sx::cover("end");
}
fn run(ps: Vec<P>) {
    let mut t = T::new();
    t.s("2023-03-31 Exchange\n");
    for (i, p) in ps.iter().enumerate() {
        t.s("  Acc:").b(&[b'A' + i as u8]).s("  ");
        write_amount(&mut t, Lay::NumSpSym, &p.n, p.s.as_bytes());
        t.s("\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &ps);
}
/// Two postings.
#[no_mangle]
pub fn h_c07_two() {
    let x = fixed(XS[sx::choose(sx::param(0, 10))]);
    let y = num(&[(2, 0), (1, 2)]);
    let (a, b) = [("EUR", "USD"), ("ABC", "EUR")][sx::choose(2)];
    run(vec![P { n: x, s: a }, P { n: y, s: b }]);
}
/// Three postings; the two of one commodity are at any place.
#[no_mangle]
pub fn h_c07_three() {
    // pairs whose sum divides exactly
    let (p, q) = [("3", "2"), ("-1", "-9"), ("5", "-1"), ("0.75", "0.25"), ("7", "-7"), ("-6", "2")][sx::choose(6)];
    let y = digits(sx::flip(), 2, 0);
    let (p, q) = (P { n: fixed(p), s: "ABC" }, P { n: fixed(q), s: "ABC" });
    let y = P { n: y, s: "EUR" };
    match sx::choose(2) {
        0 => run(vec![p, q, y]),
        _ => run(vec![p, y, q]),
    }
}
/// Three postings; the exchanged commodity is paid in two parts.
#[no_mangle]
pub fn h_c07_parts() {
    let x = P { n: fixed(["4", "-10", "0.5"][sx::choose(3)]), s: "ABC" };
    let (y, z) = (P { n: digits(sx::flip(), 1, 0), s: "EUR" }, P { n: digits(sx::flip(), 1, 1), s: "EUR" });
    run(vec![x, y, z]);
}
/// Commodities that balance on their own, and transactions of one commodity, are no exchange.
#[no_mangle]
pub fn h_c07_none() {
    let neg = |n: &Num| Num { t: [&b"-"[..], &n.t].concat(), v: n.v.neg() };
    let (x, y) = (digits(false, 1, 1), digits(false, 2, 0));
    sx::assume(!x.v.is_zero() && !y.v.is_zero());
    let (nx, ny) = (neg(&x), neg(&y));
    match sx::choose(3) {
        0 => run(vec![P { n: x, s: "ABC" }, P { n: nx, s: "ABC" }, P { n: y, s: "EUR" }, P { n: ny, s: "EUR" }]),
        1 => run(vec![P { n: x, s: "ABC" }, P { n: nx, s: "ABC" }]),
        _ => run(vec![P { n: x, s: "ABC" }, P { n: y, s: "EUR" }, P { n: nx, s: "ABC" }, P { n: ny, s: "EUR" }]),
    }
}
/// An exchange between other transactions uses its own postings only.
#[no_mangle]
pub fn h_c07_between() {
    let y = digits(false, 1, 0);
    sx::assume(!y.v.is_zero());
    let x = ["2", "5"][sx::choose(2)];
    let mut t = T::new();
    t.s("2023-01-01 P\n  A  100 EUR\n  B\n\n2023-02-01 X\n  A  ").s(x).s(" ABC\n  B  -").b(&y.t).s(" EUR\n\n2023-03-01 Q\n  A  3 EUR\n  B\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let xv = fixed(x).v;
    sx::assert(j.xacts.len() == 3, "number of transactions");
    match &j.xacts[1].posts[0].cost {
        None => sx::assert(false, "the postings of the first commodity get a cost"),
        Some(c) => sx::assert(sym(c) == "EUR" && amt(c).eq(y.v), "the cost is the share of the other commodity"),
    }
    check_amount(&j.xacts[2].posts[1].amount, "EUR", Dec::int(-3), "the next transaction is on its own");
    let p = price(&j, "ABC", "EUR").unwrap();
    check_price(&j, "ABC", "EUR", day(2023, 2, 1), amt(&p.1));
    sx::assert(amt(&p.1).mul(xv).eq(y.v), "the price of the exchange is recorded");
    sx::cover("end");
}

/// Zeros among the postings: the first posting still decides, and zero sums imply nothing.
#[no_mangle]
pub fn h_c07_zero() {
    let z = || P { n: fixed(["0", "0.00"][sx::choose(2)]), s: "ABC" };
    let q = || P { n: fixed(["4", "-0.5", "10"][sx::choose(3)]), s: "ABC" };
    let y = P { n: digits(sx::flip(), 2, 0), s: "EUR" };
    let zy = P { n: fixed("0"), s: "EUR" };
    match sx::choose(7) {
        0 => run(vec![z(), y, q()]),
        1 => run(vec![z(), q(), y]),
        2 => run(vec![q(), y, z()]),
        3 => run(vec![q(), zy, y]),
        4 => run(vec![q(), y, zy]),
        5 => run(vec![z(), y]),
        _ => run(vec![q(), zy]),
    }
}
/// Three commodities, or one elided posting, imply no exchange; layouts and symbols do not matter.
#[no_mangle]
pub fn h_c07_more() {
    let (x, y, z) = (digits(sx::flip(), 1, 0), digits(sx::flip(), 1, 0), digits(sx::flip(), 1, 0));
    sx::assume(!x.v.is_zero() && !y.v.is_zero() && !z.v.is_zero());
    let lay = LAYS[sx::choose(4)];
    let mut t = T::new();
    t.s("2023-03-31=2023-05-05 X\n  A  ");
    write_amount(&mut t, lay, &x, b"EUR");
    t.s("\n  B  ");
    write_amount(&mut t, lay, &y, b"$");
    t.s("\n  C  ");
    write_amount(&mut t, lay, &z, b"GBP");
    t.s("\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 3, "all postings are read");
    for (p, (s, n)) in j.xacts[0].posts.iter().zip([("EUR", &x), ("$", &y), ("GBP", &z)]) {
        check_amount(&p.amount, s, n.v, "a stated amount is kept");
        sx::assert(p.cost.is_none(), "no cost is made up");
    }
    for (a, b) in [("EUR", "$"), ("$", "EUR"), ("EUR", "GBP"), ("GBP", "$")] {
        sx::assert(price(&j, a, b).is_none(), "no price is made up");
    }
    sx::cover("end");
}
/// The header, layouts, notes and the accounts do not matter; the price has the transaction's date.
#[no_mangle]
pub fn h_c07_around() {
    let head = ["2023-03-31 X", "2023-03-31=2023-05-05 X", "2023-03-31", "2023-03-31 X  ; n"][sx::choose(4)];
    let nl = ["\n", "\r\n"][sx::choose(2)];
    let x = P { n: fixed(["2", "-4", "0.125"][sx::choose(3)]), s: "€" };
    let y = P { n: digits(sx::flip(), 1, 1), s: "USD" };
    let lay = (LAYS[sx::choose(4)], LAYS[sx::choose(4)]);
    let one = sx::flip();
    let mut t = T::new();
    t.s(head).s(nl).s("  Acc").s("  ");
    write_amount(&mut t, lay.0, &x.n, x.s.as_bytes());
    t.s(["", "  ; 5 GBP"][sx::choose(2)]).s(nl);
    t.s(["", "  ; note\n"][sx::choose(2)]);
    t.s("  Acc").s(if one { "" } else { ":B" }).s("  ");
    write_amount(&mut t, lay.1, &y.n, y.s.as_bytes());
    t.s(nl);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &[x, y]);
}
/// Several exchanges: each is of its own transaction, the latest rate is known.
#[no_mangle]
pub fn h_c07_series() {
    let n = sx::param(0, 2) as usize;
    let mut t = T::new();
    let mut best: Option<(u32, Dec, Dec)> = None;
    let mut want = vec![];
    for i in 0..n {
        let d = 1 + sx::choose(3) as u32;
        let x = fixed(["2", "-5", "10"][(sx::choose(2) + i) % 3]);
        let y = digits(sx::flip(), 1, 0);
        sx::assume(!y.v.is_zero());
        t.s("2023-03-0").b(&[b'0' + d as u8]).s(" X\n  A  ").b(&x.t).s(" ABC\n  B  ").b(&y.t).s(" EUR\n\n");
        if best.map_or(true, |b| b.0 <= d) {
            best = Some((d, abs(x.v), abs(y.v)));
        }
        want.push((x, y));
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == n, "number of transactions");
    for (x, (a, b)) in j.xacts.iter().zip(&want) {
        check_amount(&x.posts[0].amount, "ABC", a.v, "a stated amount is kept");
        check_amount(&x.posts[1].amount, "EUR", b.v, "a stated amount is kept");
        sx::assert(x.posts[1].cost.is_none(), "no cost is made up");
        match &x.posts[0].cost {
            None => sx::assert(false, "the postings of the first commodity get a cost"),
            Some(c) => sx::assert(sym(c) == "EUR" && amt(c).mul(abs(a.v)).eq(a.v.mul(abs(b.v))), "the cost is the share of the other commodity"),
        }
    }
    let (d, x, y) = best.unwrap();
    match price(&j, "ABC", "EUR") {
        None => sx::assert(false, "the price of the exchange is recorded"),
        Some((w, a)) => {
            sx::assert(w == day(2023, 3, d), "date of the price");
            sx::assert(amt(&a).mul(x).eq(y), "the price of the exchange is recorded");
        }
    }
    consistent(&j);
    sx::cover("end");
}
/// Four and five postings, the two commodities in any order.
#[no_mangle]
pub fn h_c07_wide() {
    let (p, q) = [("3", "2"), ("-1", "5"), ("0.5", "-2.5"), ("-6", "4")][sx::choose(4)];
    let a = P { n: fixed(p), s: "ABC" };
    let b = P { n: fixed(q), s: "ABC" };
    let c = P { n: digits(sx::flip(), 1, 0), s: "EUR" };
    let d = P { n: digits(sx::flip(), 1, 0), s: "EUR" };
    match sx::choose(5) {
        0 => run(vec![a, b, c, d]),
        1 => run(vec![a, c, b, d]),
        2 => run(vec![a, c, d, b]),
        3 => {
            // 3+2-1 and the like divide exactly, too
            let e = P { n: fixed(["-1", "4", "1", "-2"][sx::choose(4)]), s: "ABC" };
            let sum = a.n.v.add(b.n.v).add(e.n.v);
            let n = sum.scaled(1).abs();
            let exact = [1, 2, 4, 5, 8, 10, 16, 20, 25, 40, 50, 80, 100, 0].contains(&n);
            sx::assume(exact);
            run(vec![a, c, b, d, e])
        }
        _ => {
            let e = P { n: fixed("7"), s: "EUR" };
            run(vec![a, c, d, b, e])
        }
    }
}
/// Many postings of two commodities.
#[no_mangle]
pub fn h_c07_large() {
    let n = sx::param(0, 60) as usize;
    let x = digits(false, 1, 0);
    sx::assume(!x.v.is_zero());
    // first all of one, then the other, or in turn
    let turn = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut kinds = vec![];
    for i in 0..2 * n {
        let first = if turn { i % 2 == 0 } else { i < n };
        kinds.push(first);
        t.s("  A").s(&((b'a' + (i % 26) as u8) as char).to_string()).s("  ");
        if first {
            t.s("2 ABC\n");
        } else {
            t.s("-").b(&x.t).s(" EUR\n");
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    // n * 2 ABC for n * x EUR
    let unit = x.v.mul(fixed("0.5").v);
    for (p, first) in j.xacts[0].posts.iter().zip(&kinds) {
        if *first {
            sx::assert(p.cost.as_ref().map_or(false, |c| sym(c) == "EUR" && amt(c).eq(x.v)), "cost of the first commodity");
        } else {
            sx::assert(p.cost.is_none(), "no cost of the other");
        }
    }
    crate::c06::check_price(&j, "ABC", "EUR", crate::c06::day(2023, 4, 21), unit);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the implied exchange.
#[no_mangle]
pub fn h_c07_meet() {
    crate::mix::run(crate::mix::EXCHANGE, sx::param(0, 2));
}
