//! Lots and the basis of an exchange.
use crate::{
    c06::{check_amount, check_price, day},
    sx,
    util::*,
};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    journal::Journal,
    parse_text,
};

fn q(n: &Num) -> Quantity {
    Quantity::from_str(utf8(&n.t)).unwrap()
}
fn abs(d: Dec) -> Dec {
    if d.m < 0 {
        d.neg()
    } else {
        d
    }
}
/// Exchanges an amount of a commodity and compares the breakdown.
fn exchange(j: &mut Journal, s: &str, n: &Num, cost: &Num, cs: &str, per_unit: bool, lot: Option<(Dec, &str)>) {
    let (Some(a), Some(c)) = (j.commodity_pool.find(s).map(|c| c as *const _), j.commodity_pool.find(cs).map(|c| c as *const _)) else {
        sx::assert(false, "the commodities of the text are known");
        return;
    };
    let (x, y) = (Amount::new(q(n), Some(a)), Amount::new(q(cost), Some(c)));
    let before = j.commodity_pool.len();
    let (b, _) = j.commodity_pool.exchange(&x, &y, per_unit, day(2023, 6, 1));
    let fin = if per_unit { cost.v.mul(abs(n.v)) } else { cost.v };
    check_amount(&Some(b.amount), s, n.v, "an exchange keeps the amount");
    check_amount(&Some(b.final_cost), cs, fin, "final cost of an exchange");
    match lot {
        None => check_amount(&Some(b.basis_cost), cs, fin, "without a lot price the basis cost is the final cost"),
        Some((p, ps)) => check_amount(&Some(b.basis_cost), ps, p.mul(n.v), "the basis cost is the lot price times the amount"),
    }
    sx::assert(j.commodity_pool.len() == before, "an exchange makes no commodities");
}
const NS: [&str; 6] = ["-10", "4", "-0.5", "1", "0.125", "250"];

/// A lot price in any layout, with or without date and cost.
#[no_mangle]
pub fn h_c20_lot() {
    let l = num(&[(1, 0), (2, 0), (1, 2), (0, 2)]);
    let n = fixed(NS[sx::choose(sx::param(0, 3))]);
    let syms = ["EUR", "$", "€"];
    let s = syms[sx::choose(3)];
    let lay = LAYS[sx::choose(4)];
    let mut p = T::new();
    write_amount(&mut p, lay, &l, s.as_bytes());
    let mut t = T::new();
    t.s("2023-01-05 Buy\n  Stock  ").s(["10 ABC", "ABC -2", "1.5ABC"][sx::choose(3)]);
    match sx::choose(5) {
        0 => t.s(" {").b(&p.0).s("}"),
        1 => t.s(" {").b(&p.0).s("} [2023-01-02]"),
        2 => t.s(" [2023-01-02] {").b(&p.0).s("}"),
        3 => t.s("{").b(&p.0).s("}[2023-01-02]"),
        _ => t.s("   { ").b(&p.0).s(" }"),
    };
    let cost = sx::choose(3);
    let tail = if s == "$" { "  ; see {1} [2], ]}" } else { "" };
    t.s(["", " @ 5 USD", " @@ 5 USD"][cost]).s(tail).s("\n  Cash\n\n2023-01-06 Other\n  A  1 USD\n  B\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    exchange(&mut j, "ABC", &n, &fixed("7"), "USD", sx::flip(), Some((l.v, s)));
    sx::cover("end");
}
/// Commodities without a lot price, whatever was read.
#[no_mangle]
pub fn h_c20_none() {
    let n = fixed(NS[sx::choose(6)]);
    let c = num(&[(1, 0), (1, 2)]);
    let forms = ["10 ABC", "10 ABC @ 3 EUR", "-1 ABC @@ 8 EUR", "ABC 2 [2023-01-02]", "10 ABC [2023-01-02] @ 4 EUR", "0 ABC"];
    let mut t = T::new();
    t.s("2023-01-05 Buy\n  Stock  ").s(forms[sx::choose(6)]).s("\n  Cash\n\n");
    if sx::flip() {
        t.s("2023-01-06 Buy\n  Stock  2 XYZ {9 EUR}\n  Cash\n\n");
    }
    t.s("2023-01-06 Other\n  A  1 EUR\n  B\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    exchange(&mut j, "ABC", &n, &c, "EUR", sx::flip(), None);
    sx::cover("end");
}
/// The first lot price of a commodity stays, whatever comes before and after it.
#[no_mangle]
pub fn h_c20_first() {
    let n = sx::param(0, 3) as usize;
    let mut lots: [Option<Dec>; 2] = [None, None];
    let mut seen = [false, false];
    let mut t = T::new();
    for i in 0..n {
        let k = sx::choose(6);
        let l = digits(i == 1, 1, 1);
        t.s("2023-01-0").b(&[b'1' + i as u8]).s(" Buy\n  Stock  ");
        let (at, lot) = match k {
            0 => {
                t.s("5 ABC");
                (0, false)
            }
            1 => {
                t.s("5 ABC @ 3 EUR");
                (0, false)
            }
            2 => {
                t.s("-5 ABC {").b(&l.t).s(" EUR}");
                (0, true)
            }
            3 => {
                t.s("5 ABC {").b(&l.t).s(" EUR} [2022-01-01] @ 2 EUR");
                (0, true)
            }
            4 => {
                t.s("5 XYZ {").b(&l.t).s(" EUR} @@ 2 EUR");
                (1, true)
            }
            _ => {
                t.s("5 XYZ @@ 4 EUR");
                (1, false)
            }
        };
        seen[at] = true;
        if lot && lots[at].is_none() {
            lots[at] = Some(l.v);
        }
        t.s("\n  Cash\n\n");
    }
    t.s("2023-02-01 Other\n  A  1 EUR\n  B\n");
    let mut j = Journal::new();
    if sx::flip() {
        parse_text(t.str(), &mut j);
    } else {
        for p in t.str().split_inclusive("\n\n") {
            parse_text(p, &mut j);
        }
    }
    let a = fixed(NS[sx::choose(2)]);
    for (i, s) in ["ABC", "XYZ"].iter().enumerate() {
        if seen[i] {
            exchange(&mut j, s, &a, &fixed("7"), "EUR", i == 0, lots[i].map(|l| (l, "EUR")));
        }
    }
    consistent(&j);
    sx::cover("end");
}
/// Lots change neither amounts nor costs nor prices.
#[no_mangle]
pub fn h_c20_apart() {
    let (l, c) = (digits(false, 1, 1), digits(false, 1, 1));
    sx::assume(!c.v.is_zero());
    let n = fixed(["10", "-4", "0.5"][sx::choose(3)]);
    let lot = sx::choose(4);
    let total = sx::flip();
    let mut t = T::new();
    t.s("2023-01-05 Buy\n  Stock  ").b(&n.t).s(" ABC");
    match lot {
        0 => t.s(" {").b(&l.t).s(" EUR}"),
        1 => t.s(" {").b(&l.t).s(" USD} [2022-01-02]"),
        2 => t.s(" [2022-01-02]"),
        _ => &mut t,
    };
    let tot = abs(n.v).mul(c.v);
    if total {
        // a total that is a multiple of the amount: the price per unit is exact
        t.s(" @@ ").b(&c.t).s(" EUR");
    } else {
        t.s(" @ ").b(&c.t).s(" EUR");
    }
    t.s("\n  Cash\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let p = &j.xacts[0].posts;
    check_amount(&p[0].amount, "ABC", n.v, "a lot does not change the amount");
    let cost = if total { c.v } else { n.v.mul(c.v) };
    check_amount(&p[0].cost, "EUR", cost, "a lot does not change the cost");
    check_amount(&p[1].amount, "EUR", cost.neg(), "the transaction balances at cost");
    if !total {
        check_price(&j, "ABC", "EUR", day(2023, 1, 5), c.v);
    }
    let _ = tot;
    sx::assert(j.commodity_pool.find("USD").is_some() == (lot == 1), "commodities of the text");
    consistent(&j);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the lot price.
#[no_mangle]
pub fn h_c20_meet() {
    crate::mix::run(crate::mix::LOTS, sx::param(0, 2));
}
/// Amounts and costs of any value, zero included, in the lot's commodity, one with a lot of its own or another.
#[no_mangle]
pub fn h_c20_trade() {
    let (n, c, lot);
    if sx::flip() {
        n = fixed(["0", "10", "-0.125"][sx::choose(3)]);
        c = num(&[(1, 0), (1, 1)]);
        lot = fixed(["3", "-1.5"][sx::choose(2)]);
    } else {
        n = num(&[(1, 0), (1, 1)]);
        c = fixed(["0", "7", "-0.25"][sx::choose(3)]);
        lot = fixed(["3", "0", "-1.5"][sx::choose(3)]);
    }
    let cs = ["EUR", "USD", "CHF"][sx::choose(3)];
    let mut t = T::new();
    t.s("2023-01-05 Buy\n  Stock  10 ABC {").b(&lot.t).s(" EUR}\n  Other  -10 ABC\n\n");
    t.s("2023-01-06 Other\n  A  1 USD {6 CHF}\n  B\n\n2023-01-07 Other\n  A  1 CHF\n  B\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    exchange(&mut j, "ABC", &n, &c, cs, sx::flip(), Some((lot.v, "EUR")));
    sx::cover("end");
}
