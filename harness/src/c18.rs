//! Results do not depend on the order of hash maps.
use crate::{c06::day, c15::equal, sx, util::*};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    journal::Journal,
    parse_text, report,
};

fn same_lines(a: &[String], b: &[String]) {
    sx::assert(a.len() == b.len(), "both runs report the same number of lines");
    for (x, y) in a.iter().zip(b) {
        sx::assert(same(x.as_bytes(), y.as_bytes()), "both runs report the same");
    }
}
fn reports(a: &Journal, b: &Journal) {
    same_lines(&report::balance_report(a), &report::balance_report(b));
    same_lines(&report::report_accounts(a), &report::report_accounts(b));
    sx::cover("end");
}
fn twice(t: &T, slots: u64) -> (Journal, Journal) {
    // one reading in a fixed order of the maps, one in any order
    let mut a = Journal::new();
    parse_text(t.str(), &mut a);
    let mut b = Journal::new();
    sx::hash_mode(slots);
    parse_text(t.str(), &mut b);
    (a, b)
}

/// Accounts of one level and below.
#[no_mangle]
pub fn h_c18_accounts() {
    let n = sx::param(0, 3) as usize;
    let names = [["C", "A", "D", "B", "E"], ["b", "B", "a", "A", "c"]][sx::choose(2)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let x = digits(false, 1, 0);
    let pre = ["", "P:"][sx::choose(2)];
    for i in 0..n {
        // given in an order that is not the alphabetical one
        t.s("  ").s(pre).s(names[i]);
        if i + 1 < n {
            t.s("  ").b(if i == 0 { &x.t } else { b"2" }).s(" EUR");
        }
        t.s("\n");
    }
    let (a, b) = twice(&t, sx::param(1, 4));
    reports(&a, &b);
    equal(&a, &b);
}
/// Several commodities in one balance.
#[no_mangle]
pub fn h_c18_commodities() {
    let n = sx::param(0, 3) as usize;
    let syms = ["GBP", "EUR", "USD", "CHF"];
    let mut t = T::new();
    let x = digits(sx::flip(), 1, 0);
    for i in 0..n {
        t.s("2023-04-21 Payee\n  A  ").b(if i == 0 { &x.t } else { b"-3" }).s(" ").s(syms[i]).s("\n  B\n\n");
    }
    let (a, b) = twice(&t, sx::param(1, 4));
    reports(&a, &b);
    equal(&a, &b);
}
/// The exchange of two commodities implied by a transaction, and costs.
#[no_mangle]
pub fn h_c18_exchange() {
    let mut t = T::new();
    let forms = ["  A  10 EUR\n  B  -20 USD\n", "  A  10 USD\n  B  -20 EUR\n  C  0 EUR\n", "  A  10 VEUR @ 2 EUR\n  B\n", "  A  4 EUR\n  B  6 EUR\n  C  -5 USD\n"];
    let k = sx::param(0, 1) as usize;
    for _ in 0..k {
        t.s("2023-04-21 Payee\n").s(forms[sx::choose(4)]).s("\n");
    }
    let (a, b) = twice(&t, sx::param(1, 4));
    reports(&a, &b);
    equal(&a, &b);
}
/// Prices of commodities.
#[no_mangle]
pub fn h_c18_prices() {
    let n = sx::param(0, 2) as usize;
    let names = ["AAA", "BBB", "CCC", "DDD"];
    let mut ps: Vec<(usize, usize, u32, i32)> = vec![];
    for i in 0..n {
        let k = sx::choose(4);
        ps.push((k, (k + 1 + sx::choose(3)) % 4, 1 + i as u32, [2, 3, 5, 7][i]));
    }
    let fill = |j: &mut Journal| {
        let c: Vec<_> = names.iter().map(|s| j.commodity_pool.find_or_create(s, None)).collect();
        for (a, b, d, p) in &ps {
            j.commodity_pool.add_price(c[*a], day(2023, 1, *d), Amount::new(Quantity::from(*p), Some(c[*b])));
        }
        j.commodity_pool.verif_find_price(c[0], c[3], day(2100, 1, 1), day(1900, 1, 1)).map(|(d, a)| (d, amt(&a).m, amt(&a).s, sym(&a).to_string()))
    };
    let mut a = Journal::new();
    let p = fill(&mut a);
    let mut b = Journal::new();
    sx::hash_mode(sx::param(1, 4));
    let q = fill(&mut b);
    sx::assert(p == q, "both runs find the same price");
    if p.is_some() {
        sx::cover("price");
    }
    sx::cover("end");
}
