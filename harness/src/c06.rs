//! Costs of postings and the prices they establish.
use crate::{sx, util::*};
use chrono::{NaiveDate, NaiveDateTime};
use ledger_rs_lib::{amount::Amount, journal::Journal, parse_text};

pub fn day(y: i32, m: u32, d: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(0, 0, 0).unwrap()
}
/// The price found for a pair of commodities, of any date.
pub fn price(j: &Journal, from: &str, to: &str) -> Option<(NaiveDateTime, Amount)> {
    let (a, b) = (j.commodity_pool.find(from)?, j.commodity_pool.find(to)?);
    j.commodity_pool.verif_find_price(a as *const _, b as *const _, day(2100, 1, 1), day(1900, 1, 1))
}
pub fn check_price(j: &Journal, from: &str, to: &str, when: NaiveDateTime, p: Dec) {
    match price(j, from, to) {
        None => sx::assert(false, "the price is recorded"),
        Some((w, a)) => {
            sx::assert(w == when, "the price has the date of the transaction");
            sx::assert(sym(&a) == to, "commodity of the price");
            sx::assert(amt(&a).eq(p), "the price per unit is recorded");
        }
    }
}
pub fn check_amount(a: &Option<Amount>, s: &str, v: Dec, what: &str) {
    match a {
        None => sx::assert(false, what),
        Some(a) => sx::assert(same(sym(a).as_bytes(), s.as_bytes()) && amt(a).eq(v), what),
    }
}

const QS: [&str; 12] = ["10", "-4", "3", "0", "0.5", "-1.25", "1", "-7", "250", "0.08", "-2", "0.00"];

fn post(j: &Journal, q: &Num, qs: &str, cost: Dec, cs: &str, elided: bool) {
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 2, "both postings are read");
    let p = &j.xacts[0].posts;
    check_amount(&p[0].amount, qs, q.v, "the amount of a posting with a cost is kept");
    check_amount(&p[0].cost, cs, cost, "cost of the posting");
    check_amount(&p[1].amount, cs, if elided { cost.neg() } else { Dec::int(-77) }, "the other posting");
    sx::assert(p[1].cost.is_none(), "a posting without a cost has none");
    sx::assert(same(account(&p[0]).fullname().as_bytes(), b"Assets:Stock"), "account of the posting");
    consistent(j);
}

/// Price per unit: the cost is price times quantity, with the sign of the quantity.
#[no_mangle]
pub fn h_c06_unit() {
    let q = fixed(QS[sx::choose(sx::param(0, 12))]);
    let p = match sx::choose(2) {
        0 => digits(false, 2, 0),
        _ => digits(false, 1, 2),
    };
    let elided = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  Assets:Stock  ").b(&q.t).s(" ABC @ ").b(&p.t).s(" EUR\n  Cash");
    t.s(if elided { "\n" } else { "  -77 EUR\n" });
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    post(&j, &q, "ABC", q.v.mul(p.v), "EUR", elided);
    if !p.v.is_zero() && !q.v.is_zero() {
        check_price(&j, "ABC", "EUR", day(2023, 4, 21), p.v);
    } else if p.v.is_zero() {
        sx::assert(price(&j, "ABC", "EUR").is_none(), "a zero price is not recorded");
    }
    sx::assert(price(&j, "EUR", "ABC").is_none(), "no price is made up for the other direction");
    sx::cover("end");
}
/// Total cost: as stated, and the price is the share of one unit.
#[no_mangle]
pub fn h_c06_total() {
    let k = sx::choose(sx::param(0, 8));
    let q = fixed(["10", "-4", "0.5", "-1.25", "1", "250", "0.08", "-2"][k]);
    let c = match sx::choose(2) {
        0 => digits(false, 2, 0),
        _ => digits(false, 1, 2),
    };
    sx::assume(!c.v.is_zero());
    let elided = sx::flip();
    let mut t = T::new();
    t.s("2024-02-29 Payee\n  Assets:Stock  ").b(&q.t).s(" ABC @@ ").b(&c.t).s(" EUR\n  Cash");
    t.s(if elided { "\n" } else { "  -77 EUR\n" });
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    post(&j, &q, "ABC", c.v, "EUR", elided);
    // price * quantity = cost
    match price(&j, "ABC", "EUR") {
        None => sx::assert(false, "the price is recorded"),
        Some((w, a)) => {
            sx::assert(w == day(2024, 2, 29), "the price has the date of the transaction");
            let m = if q.v.m < 0 { q.v.neg() } else { q.v };
            sx::assert(amt(&a).mul(m).eq(c.v), "the price is the cost of one unit");
        }
    }
    sx::cover("end");
}
/// All ways to write the amount, the lot and the cost.
#[no_mangle]
pub fn h_c06_layout() {
    let lay = LAYS[sx::choose(4)];
    let cl = LAYS[sx::choose(4)];
    let q = fixed(["10", "-2"][sx::choose(2)]);
    let p = digits(false, 1, 1);
    let per = sx::flip();
    let lot = sx::choose(4);
    let (qs, cs) = [("ABC", "EUR"), ("X", "$"), ("Ü", "€")][sx::choose(3)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n    Assets:Stock    ");
    write_amount(&mut t, lay, &q, qs.as_bytes());
    t.s([" ", " {3 EUR} ", " {3 EUR} [2022-12-31] ", " [2022-12-31] {3 $} "][lot]);
    t.s(if per { "@" } else { "@@" });
    t.s(["", " ", "  "][sx::choose(3)]);
    write_amount(&mut t, cl, &p, cs.as_bytes());
    t.s(["", "  ; note @ 7 USD", " "][sx::choose(3)]);
    t.s("\n  Cash\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let cost = if per { p.v.mul(q.v) } else { p.v };
    post(&j, &q, qs, cost, cs, true);
    sx::cover("end");
}
/// Several postings with costs in one transaction: each keeps its own.
#[no_mangle]
pub fn h_c06_many() {
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut want = vec![];
    let mut sum = Dec::zero();
    let turn = sx::choose(3);
    for i in 0..n {
        let q = fixed(["2", "-3", "5"][(i + turn) % 3]);
        let p = digits(false, 1, 0);
        let per = sx::flip();
        sx::assume(!p.v.is_zero());
        let s = ["AAA", "BBB", "CCC"][i % 3];
        t.s("  Stock:").s(s).s("  ").b(&q.t).s(" ").s(s).s(if per { " @ " } else { " @@ " }).b(&p.t).s(" EUR\n");
        let c = if per { p.v.mul(q.v) } else { p.v };
        sum = sum.add(c);
        want.push((s, q, c, per.then_some(p.v)));
    }
    t.s("  Cash\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == n + 1, "all postings are read");
    for (p, w) in j.xacts[0].posts.iter().zip(&want) {
        check_amount(&p.amount, w.0, w.1.v, "the amount of a posting with a cost is kept");
        check_amount(&p.cost, "EUR", w.2, "cost of the posting");
        if let Some(u) = w.3 {
            check_price(&j, w.0, "EUR", day(2023, 4, 21), u);
        }
    }
    check_amount(&j.xacts[0].posts[n].amount, "EUR", sum.neg(), "the elided amount balances the costs");
    consistent(&j);
    sx::cover("end");
}
/// Prices established by transactions of any order: the latest counts.
#[no_mangle]
pub fn h_c06_dates() {
    let n = sx::param(0, 3) as usize;
    let dates = [(2023, 4, 21), (2023, 12, 31), (2022, 5, 1), (2024, 1, 1)];
    let mut t = T::new();
    let mut best: Option<(NaiveDateTime, Dec)> = None;
    for _ in 0..n {
        let (y, m, d) = dates[sx::choose(4)];
        let p = digits(false, 1, 0);
        sx::assume(!p.v.is_zero());
        t.s(&format!("{}-{:02}-{:02} Payee\n  A  5 ABC @ ", y, m, d)).b(&p.t).s(" EUR\n  B\n\n");
        let w = day(y, m as u32, d as u32);
        if best.map_or(true, |b| b.0 <= w) {
            best = Some((w, p.v));
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let (w, p) = best.unwrap();
    check_price(&j, "ABC", "EUR", w, p);
    sx::cover("end");
}
/// The exchange of an amount at a cost.
#[no_mangle]
pub fn h_c06_exchange() {
    let mut j = Journal::new();
    let a = j.commodity_pool.find_or_create("ABC", None);
    let e = j.commodity_pool.find_or_create("EUR", None);
    let q = fixed(["10", "-4", "0.5", "-1.25", "2", "0"][sx::choose(6)]);
    let c = num(&[(2, 0), (1, 2)]);
    let per = sx::flip();
    let same_c = sx::choose(4) == 0;
    let amount = Amount::new(ledger_rs_lib::amount::Quantity::from_str(utf8(&q.t)).unwrap(), Some(a));
    let cost = Amount::new(ledger_rs_lib::amount::Quantity::from_str(utf8(&c.t)).unwrap(), Some(if same_c { a } else { e }));
    let (b, p) = j.commodity_pool.exchange(&amount, &cost, per, day(2023, 1, 1));
    let cs = if same_c { "ABC" } else { "EUR" };
    let abs = |d: Dec| if d.m < 0 { d.neg() } else { d };
    let fin = if per { c.v.mul(abs(q.v)) } else { c.v };
    check_amount(&Some(b.amount), "ABC", q.v, "an exchange keeps the amount");
    check_amount(&Some(b.final_cost), cs, fin, "final cost of an exchange");
    check_amount(&Some(b.basis_cost), cs, fin, "without a lot the basis cost is the final cost");
    match p {
        None => sx::assert(same_c || c.v.is_zero(), "an exchange establishes a price"),
        Some(p) => {
            sx::assert(!same_c && !c.v.is_zero(), "no price of a commodity in itself, no zero price");
            sx::assert(p.commodity == a && p.datetime == day(2023, 1, 1), "commodity and date of the price");
            sx::assert(sym(&p.price) == "EUR", "commodity of the price");
            if per || q.v.is_zero() {
                sx::assert(amt(&p.price).eq(abs(c.v)), "price per unit");
            } else {
                sx::assert(amt(&p.price).mul(abs(q.v)).eq(abs(c.v)), "price per unit of a total cost");
            }
        }
    }
    sx::cover("end");
}
/// A lot's price gives the basis cost.
#[no_mangle]
pub fn h_c06_basis() {
    let l = digits(false, 2, 0);
    let q = fixed(["-10", "4", "-0.5"][sx::choose(3)]);
    let c = digits(false, 2, 0);
    let mut t = T::new();
    t.s("2023-01-05 Buy\n  Stock  10 ABC {").b(&l.t).s(" EUR}");
    t.s(["", " [2023-01-02]"][sx::choose(2)]).s(" @ 5 EUR\n  Cash\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let a = j.commodity_pool.find("ABC").unwrap() as *const _;
    let e = j.commodity_pool.find("EUR").unwrap() as *const _;
    let amount = Amount::new(ledger_rs_lib::amount::Quantity::from_str(utf8(&q.t)).unwrap(), Some(a));
    let cost = Amount::new(ledger_rs_lib::amount::Quantity::from_str(utf8(&c.t)).unwrap(), Some(e));
    let (b, _) = j.commodity_pool.exchange(&amount, &cost, true, day(2023, 6, 1));
    let abs = |d: Dec| if d.m < 0 { d.neg() } else { d };
    check_amount(&Some(b.amount), "ABC", q.v, "an exchange keeps the amount");
    check_amount(&Some(b.final_cost), "EUR", c.v.mul(abs(q.v)), "final cost of an exchange");
    check_amount(&Some(b.basis_cost), "EUR", l.v.mul(q.v), "basis cost of a lot");
    sx::cover("end");
}

/// What stands around a posting with a cost makes no difference: dates, notes, other postings and transactions.
#[no_mangle]
pub fn h_c06_around() {
    let q = fixed(["10", "-4", "0.333", "12345.678", "-1000000"][sx::choose(5)]);
    let p = digits(false, 1, 2);
    sx::assume(!p.v.is_zero());
    let head = ["2023-04-21 Payee", "2023-04-21=2023-05-01 Payee", "2023-04-21", "2023-04-21=2022-05-01 P  ; note"][sx::choose(4)];
    let nl = ["\n", "\r\n"][sx::choose(2)];
    let at = sx::choose(3);
    let before = sx::choose(4);
    let mut t = T::new();
    t.s(["", "2023-04-21 X\n  S  1 ABC @ 5 EUR\n  C\n\n", "2023-01-01 X\n  S  3 EUR\n  C  -6 USD\n\n", "2020-01-01 X\n  S  2 ABC {7 EUR} @@ 8 USD\n  C\n\n"][before]);
    t.s(head).s(nl);
    let n = 2 + (at == 1) as usize;
    for i in 0..n {
        if i == at.min(1) {
            t.s("  Assets:Stock  ").b(&q.t).s(" ABC @ ").b(&p.t).s(" EUR").s(["", " ", "  ; 3 USD"][sx::choose(3)]).s(nl);
        } else if i + 1 == n || at == 2 {
            t.s("  Cash").s(nl);
        } else {
            t.s("  Assets:Stock  2 EUR").s(nl);
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let x = (before > 0) as usize;
    sx::assert(j.xacts.len() == x + 1 && j.xacts[x].posts.len() == n, "all postings are read");
    let k = j.xacts[x].posts.iter().position(|p| p.cost.is_some());
    let Some(k) = k else {
        sx::assert(false, "cost of the posting");
        return;
    };
    let ps = &j.xacts[x].posts;
    check_amount(&ps[k].amount, "ABC", q.v, "the amount of a posting with a cost is kept");
    check_amount(&ps[k].cost, "EUR", q.v.mul(p.v), "cost of the posting");
    sx::assert(ps.iter().filter(|p| p.cost.is_some()).count() == 1, "a posting without a cost has none");
    // amounts and costs in EUR are balanced
    let mut sum = Dec::zero();
    for p in ps {
        sum = sum.add(amt(p.cost.as_ref().unwrap_or_else(|| p.amount.as_ref().unwrap())));
    }
    sx::assert(sum.is_zero(), "the transaction balances at cost");
    check_price(&j, "ABC", "EUR", day(2023, 4, 21), p.v);
    consistent(&j);
    sx::cover("end");
}
/// All amounts stated: the stated costs are kept, whatever else the transaction holds.
#[no_mangle]
pub fn h_c06_stated() {
    let q = fixed(["10", "-5", "2"][sx::choose(3)]);
    let p = digits(false, 1, 1);
    let y = num(&[(2, 0)]);
    sx::assume(!p.v.is_zero());
    let per = sx::flip();
    let others = ["EUR", "USD", "ABC", "GBP"];
    let o = others[sx::choose(4)];
    let third = sx::choose(5);
    let first = sx::flip();
    let mut priced = T::new();
    priced.s("  Stock  ").b(&q.t).s(" ABC").s(if per { " @ " } else { " @@ " }).b(&p.t).s(" EUR\n");
    let mut plain = T::new();
    plain.s("  Cash  ").b(&y.t).s(" ").s(o).s("\n");
    let mut t = T::new();
    t.s("2023-04-21 P\n");
    if first {
        t.b(&priced.0).b(&plain.0);
    } else {
        t.b(&plain.0).b(&priced.0);
    }
    let mut n = 2;
    if third < 4 {
        t.s("  Fee  3 ").s(others[third]).s("\n");
        n = 3;
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == n, "all postings are read");
    let ps = &j.xacts[0].posts;
    let (a, b) = if first { (&ps[0], &ps[1]) } else { (&ps[1], &ps[0]) };
    check_amount(&a.amount, "ABC", q.v, "the amount of a posting with a cost is kept");
    check_amount(&a.cost, "EUR", if per { q.v.mul(p.v) } else { p.v }, "cost of the posting");
    check_amount(&b.amount, o, y.v, "a stated amount is kept");
    sx::assert(b.cost.is_none(), "a posting without a cost has none");
    if n == 3 {
        check_amount(&ps[2].amount, others[third], Dec::int(3), "a stated amount is kept");
        sx::assert(ps[2].cost.is_none(), "a posting without a cost has none");
    }
    if per {
        check_price(&j, "ABC", "EUR", day(2023, 4, 21), p.v);
    }
    sx::cover("end");
}
/// Prices of several pairs, on equal and different days; the last of a day counts.
#[no_mangle]
pub fn h_c06_pairs() {
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    let pairs = [("AAA", "EUR"), ("BBB", "EUR"), ("AAA", "USD"), ("EUR", "AAA")];
    let mut best: [Option<(u32, Dec)>; 4] = [None; 4];
    for i in 0..n {
        let k = sx::choose(4);
        let d = 1 + sx::choose(2) as u32;
        let p = digits(false, 1, 0);
        sx::assume(!p.v.is_zero());
        t.s("2023-05-0").b(&[b'0' + d as u8]).s(" P\n  A  ").b(&[b'1' + i as u8]).s(" ").s(pairs[k].0).s(" @ ").b(&p.t).s(" ").s(pairs[k].1).s("\n  B\n\n");
        if best[k].map_or(true, |b| b.0 <= d) {
            best[k] = Some((d, p.v));
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    for k in 0..4 {
        if let Some((d, p)) = best[k] {
            check_price(&j, pairs[k].0, pairs[k].1, day(2023, 5, d), p);
        } else if k < 2 && best.iter().flatten().count() == 1 {
            sx::assert(price(&j, pairs[k].0, pairs[k].1).is_none(), "no price is made up");
        }
    }
    sx::cover("end");
}
/// Large and small prices.
#[no_mangle]
pub fn h_c06_scale() {
    let (ni, nf) = [(6, 0), (9, 0), (3, 3), (1, 6), (0, 8), (6, 2), (12, 4)][sx::choose(7)];
    // two symbolic digits at either end, zeros or other digits between them
    let mut t = vec![];
    let fill = [b'0', b'7'][sx::choose(2)];
    let low = sx::flip();
    for i in 0..ni + nf {
        if i == ni {
            t.push(b'.');
        }
        let free = if low { i + 2 >= ni + nf } else { i < 2 };
        t.push(if free { sx::byte(b"0123456789") } else { fill });
    }
    let mut m = 0i128;
    for c in &t {
        if *c != b'.' {
            m = m.wrapping_mul(10).wrapping_add((*c - b'0') as i128);
        }
    }
    let p = Num { t, v: Dec { m, s: nf as u32 } };
    sx::assume(m != 0);
    let q = fixed(["1", "-100", "0.001", "-0.0000000001", "0.0000000000000001"][sx::choose(5)]);
    let total = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  Assets:Stock  ").b(&q.t).s(if total { " ABC @@ " } else { " ABC @ " }).b(&p.t).s(" EUR\n  Cash\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let (cost, unit) = if total {
        (p.v, p.v.mul(fixed(["1", "0.01", "1000", "10000000000", "10000000000000000"][match q.t.len() { 1 => 0, 4 => 1, 5 => 2, 13 => 3, _ => 4 }]).v))
    } else {
        (q.v.mul(p.v), p.v)
    };
    post(&j, &q, "ABC", cost, "EUR", true);
    check_price(&j, "ABC", "EUR", day(2023, 4, 21), unit);
    sx::cover("end");
}
/// Many priced postings and prices.
#[no_mangle]
pub fn h_c06_large() {
    let n = sx::param(0, 80) as usize;
    let x = digits(false, 1, 1);
    sx::assume(!x.v.is_zero());
    let one = sx::flip();
    let at = [0, n / 2, n - 1][sx::choose(3)];
    let mut t = T::new();
    for i in 0..n {
        if i == 0 || !one {
            t.s("\n2023-04-").s(["21", "22"][i % 2]).s(" Payee\n");
        }
        let s = format!("S{}", ((b'a' + (i % 26) as u8) as char).to_string().repeat(1 + i / 26));
        t.s("  Stock  2 ").s(&s).s(" @ ").b(if i == at { &x.t } else { b"3.5" }).s(" EUR\n");
        if !one || i + 1 == n {
            t.s("  Cash\n");
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let all: Vec<_> = j.all_posts().into_iter().filter(|p| p.cost.is_some()).collect();
    sx::assert(all.len() == n, "every priced posting has a cost");
    for (i, p) in all.iter().enumerate() {
        let u = if i == at { x.v } else { fixed("3.5").v };
        sx::assert(amt(p.cost.as_ref().unwrap()).eq(u.mul(Dec::int(2))), "cost of a posting");
        check_price(&j, sym(p.amount.as_ref().unwrap()), "EUR", day(2023, 4, if one || i % 2 == 0 { 21 } else { 22 }), u);
    }
    let cash = j.all_posts().into_iter().filter(|p| p.cost.is_none()).map(|p| amt(p.amount.as_ref().unwrap())).fold(Dec::zero(), |a, b| a.add(b));
    sx::assert(cash.eq(x.v.mul(Dec::int(-2)).add(Dec::int(-7 * (n as i128 - 1)))), "balanced at cost");
    sx::cover("end");
}
/// Whatever features meet in a transaction: the costs.
#[no_mangle]
pub fn h_c06_meet() {
    crate::mix::run(crate::mix::COSTS | crate::mix::PRICES, sx::param(0, 2));
}
/// Prices of several days, then another of a day that has one.
#[no_mangle]
pub fn h_c06_repeat() {
    let n = 1 + sx::choose(sx::param(0, 8)) as usize;
    let twice = 1 + sx::choose(2);
    let x = digits(false, 1, 1);
    sx::assume(!x.v.is_zero());
    let back = sx::flip();
    let total = sx::flip();
    let mut t = T::new();
    let mut d: Vec<usize> = (1..=n).collect();
    if back {
        d.reverse();
    }
    for _ in 0..twice {
        d.push(n);
    }
    for (i, d) in d.iter().enumerate() {
        t.s("2023-04-").s(&format!("{:02}", d)).s(" Payee\n  Stock  2 X ").s(if total { "@@ " } else { "@ " });
        if i == n + twice - 1 {
            t.b(&x.t);
        } else {
            t.s(&format!("{}.5", 10 + i));
        }
        t.s(" EUR\n  Cash\n\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let u = if total { x.v.mul(fixed("0.5").v) } else { x.v };
    check_price(&j, "X", "EUR", day(2023, 4, n as u32), u);
    sx::cover("end");
}
