//! Arithmetic of amounts and balances.
use crate::{sx, util::*};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    journal::Journal,
    parse_text,
};

fn q(n: &Num) -> Quantity {
    Quantity::from_str(utf8(&n.t)).unwrap()
}
const SHAPES: &[(usize, usize)] = &[(2, 0), (1, 2), (3, 1)];

/// Sums, differences and inverses of amounts of one commodity.
#[no_mangle]
pub fn h_c05_linear() {
    let mut j = Journal::new();
    let c = match sx::choose(2) {
        0 => Some(j.commodity_pool.find_or_create("EUR", None)),
        _ => None,
    };
    let op = sx::choose(7);
    let x = num(SHAPES);
    let y = if op < 4 { num(SHAPES) } else { fixed(["12", "-1.5"][sx::choose(2)]) };
    let (a, b) = (Amount::new(q(&x), c), Amount::new(q(&y), c));
    let who = |m: &Amount| sx::assert(sym(m) == if c.is_some() { "EUR" } else { "" }, "commodity of a result");
    match op {
        0 => {
            let r = a + b;
            who(&r);
            sx::assert(amt(&r).eq(x.v.add(y.v)), "sum");
        }
        1 => {
            let mut r = a;
            r += b;
            who(&r);
            sx::assert(amt(&r).eq(x.v.add(y.v)), "sum in place");
        }
        2 => {
            let mut r = a;
            r.add(&b);
            who(&r);
            sx::assert(amt(&r).eq(x.v.add(y.v)), "sum by add");
        }
        3 => {
            let mut r = a;
            r -= b;
            who(&r);
            sx::assert(amt(&r).eq(x.v.sub(y.v)), "difference");
            if x.v.s == 0 && y.v.s == 0 {
                r += b;
                sx::assert(amt(&r).eq(x.v), "a difference is undone by the sum");
            }
        }
        4 => {
            let r = a.inverse();
            who(&r);
            sx::assert(amt(&r).eq(x.v.neg()), "inverse");
            sx::assert(amt(&a).eq(x.v), "the operand of inverse is kept");
            sx::assert(amt(&r.inverse()).eq(x.v), "inverse of the inverse");
            let mut s = a;
            s.invert();
            who(&s);
            sx::assert(amt(&s).eq(x.v.neg()), "invert");
        }
        5 => {
            let r = a.abs();
            who(&r);
            sx::assert(amt(&r).eq(if x.v.m > 0 { x.v } else { x.v.neg() }), "absolute value");
            sx::assert(amt(&a).eq(x.v), "the operand of abs is kept");
        }
        _ => {
            sx::assert(a.is_zero() == x.v.is_zero(), "is_zero");
            sx::assert(a.is_null() == (x.v.is_zero() && c.is_none()), "is_null");
            let r = Amount::copy_from(&a);
            who(&r);
            sx::assert(amt(&r).eq(x.v), "copy");
            let mut r = a;
            r.remove_commodity();
            sx::assert(sym(&r) == "" && amt(&r).eq(x.v), "remove_commodity keeps the quantity");
            sx::assert((a == b) == x.v.eq(y.v), "equality");
        }
    }
    sx::cover("end");
}
/// Products and quotients.
#[no_mangle]
pub fn h_c05_product() {
    let mut j = Journal::new();
    let e = j.commodity_pool.find_or_create("EUR", None);
    let u = j.commodity_pool.find_or_create("USD", None);
    let pick = |k: usize| [None, Some(e), Some(u)][k];
    let name = |k: usize| ["", "EUR", "USD"][k];
    let (ka, kb) = (sx::choose(3), sx::choose(3));
    let x = num(&[(2, 0), (1, 2)]);
    let a = Amount::new(q(&x), pick(ka));
    let want = if ka == 0 { name(kb) } else { name(ka) };
    if sx::flip() {
        let y = num(&[(1, 0), (1, 1)]);
        let b = Amount::new(q(&y), pick(kb));
        let r = a * b;
        sx::assert(amt(&r).eq(x.v.mul(y.v)), "product");
        sx::assert(sym(&r) == want, "commodity of a product");
        let mut s = a;
        s *= b;
        sx::assert(amt(&s).eq(x.v.mul(y.v)), "product in place");
        sx::assert(sym(&s) == want, "commodity of a product in place");
    } else {
        // divisors that give finite decimals
        let y = fixed(["1", "-2", "4096", "5", "-8", "1048576", "0.5", "0.0625", "-2.5", "100", "4", "10", "0.04", "-0.00032"][sx::choose(sx::param(0, 10))]);
        let b = Amount::new(q(&y), pick(kb));
        let r = a / b;
        sx::assert(amt(&r).mul(y.v).eq(x.v), "quotient");
        sx::assert(sym(&r) == want, "commodity of a quotient");
    }
    sx::cover("end");
}
/// Amounts of different commodities are not added up.
#[no_mangle]
pub fn h_c05_mixing() {
    let mut j = Journal::new();
    let s = word(1 + sx::choose(2), b"aAbBcC$");
    let r = word(1 + sx::choose(2), b"aAbBcC$");
    sx::assume(!same(&s, &r));
    let c = j.commodity_pool.find_or_create(utf8(&s), None);
    let d = if sx::flip() { Some(j.commodity_pool.find_or_create(utf8(&r), None)) } else { None };
    let (x, y) = (num(&[(1, 0)]), num(&[(1, 0)]));
    sx::assume(!y.v.is_zero());
    let (a, b) = (Amount::new(q(&x), Some(c)), Amount::new(q(&y), d));
    let swap = sx::flip();
    let (a, b) = if swap { (b, a) } else { (a, b) };
    if swap {
        sx::assume(!x.v.is_zero());
    }
    let which = sx::choose(4);
    sx::cover("end");
    let out = sx::may_refuse(|| match which {
        0 => a + b,
        1 => {
            let mut r = a;
            r += b;
            r
        }
        2 => {
            let mut r = a;
            r -= b;
            r
        }
        _ => {
            let mut r = a;
            r.add(&b);
            r
        }
    });
    let _ = out;
    sx::assert(false, "amounts of different commodities are not added up");
}
/// A balance keeps commodities apart and sums each of them exactly.
#[no_mangle]
pub fn h_c05_balance() {
    let n = sx::param(0, 3) as usize;
    let mut j = Journal::new();
    let symbols = ["EUR", "USD", ""];
    let ptr = [
        Some(j.commodity_pool.find_or_create("EUR", None)),
        Some(j.commodity_pool.find_or_create("USD", None)),
        None,
    ];
    let mut bal = j.master.total();
    sx::assert(bal.amounts.is_empty(), "the balance of nothing is empty");
    let mut want = Sums::new();
    for i in 0..n {
        let k = sx::choose(3);
        let x = digits(i == 2, 1, i % 2);
        let a = Amount::new(q(&x), ptr[k]);
        match sx::choose(3) {
            0 => {
                bal.add(&a);
                want.add(symbols[k], x.v);
            }
            1 => {
                bal += a;
                want.add(symbols[k], x.v);
            }
            _ => {
                bal -= a;
                want.add(symbols[k], x.v.neg());
            }
        }
    }
    check_amounts(&listed(&bal.amounts), &want, "balance of a commodity");
    // balances add up commodity by commodity
    let mut other = j.master.total();
    let y = digits(false, 1, 0);
    other.add(&Amount::new(q(&y), ptr[0]));
    bal += other;
    want.add("EUR", y.v);
    check_amounts(&listed(&bal.amounts), &want, "sum of balances");
    sx::cover("end");
}
/// The balance of an account does not depend on the order of its postings.
#[no_mangle]
pub fn h_c05_order() {
    let vals = [num(&[(1, 0)]), num(&[(1, 1)]), num(&[(1, 0)])];
    let syms = ["EUR", "USD", ["EUR", "USD"][sx::choose(2)]];
    let orders = [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]];
    let mut want = Sums::new();
    for i in 0..3 {
        want.add(syms[i], vals[i].v);
    }
    let mut j = Journal::new();
    let o = orders[sx::choose(4)];
    let mut t = T::new();
    for i in o {
        t.s("2023-01-01 P\n  A  ").b(&vals[i].t).s(" ").s(syms[i]).s("\n  B\n\n");
    }
    parse_text(t.str(), &mut j);
    let a = j.find_account("A").unwrap();
    check_amounts(&listed(&a.amount().amounts), &want, "balance of the account");
    sx::cover("end");
}

/// A number with known leading digits; the last d digits are symbolic.
fn long(neg: bool, ni: usize, nf: usize, d: usize, seed: usize) -> Num {
    let mut t = vec![];
    let mut m: i128 = 0;
    if neg {
        t.push(b'-');
    }
    for k in 0..ni + nf {
        if k == ni {
            t.push(b'.');
        }
        let c = if k + d >= ni + nf { sx::digit() } else { b'1' + ((k * 7 + seed) % 9) as u8 };
        t.push(c);
        m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    Num { t, v: Dec { m: if neg { m.wrapping_neg() } else { m }, s: nf as u32 } }
}
/// Long operands: sums, differences and products that fit in 28 digits are exact.
#[no_mangle]
pub fn h_c05_long() {
    let d = sx::param(0, 2) as usize;
    let mut j = Journal::new();
    let c = Some(j.commodity_pool.find_or_create("EUR", None));
    let neg = (sx::flip(), sx::flip());
    match sx::choose(3) {
        0 => {
            let shapes = [(18, 0), (1, 17), (12, 12), (3, 20), (24, 2)];
            let (p, q1) = (shapes[sx::choose(5)], [(2, 3), (7, 0), (5, 12)][sx::choose(3)]);
            // the result has at most 28 digits
            let (i, f) = (p.0.max(q1.0), p.1.max(q1.1));
            if i + f > 27 {
                return;
            }
            let (x, y) = (long(neg.0, p.0, p.1, d, 0), long(neg.1, q1.0, q1.1, 0, 3));
            let (a, b) = (Amount::new(q(&x), c), Amount::new(q(&y), c));
            sx::assert(amt(&(a + b)).eq(x.v.add(y.v)), "sum");
            let mut r = a;
            r -= b;
            sx::assert(amt(&r).eq(x.v.sub(y.v)), "difference");
            let mut bal = j.master.total();
            bal += a;
            bal.add(&b);
            let mut want = Sums::new();
            want.add("EUR", x.v.add(y.v));
            check_amounts(&listed(&bal.amounts), &want, "balance of a commodity");
        }
        1 => {
            let (p, q1) = [((9, 4), (3, 5)), ((2, 9), (6, 6)), ((16, 0), (1, 7)), ((4, 10), (0, 12))][sx::choose(4)];
            let (x, y) = (long(neg.0, p.0, p.1, 1, 0), long(neg.1, q1.0, q1.1, 0, 3));
            let (a, b) = (Amount::new(q(&x), c), Amount::new(q(&y), None));
            sx::assert(amt(&(a * b)).eq(x.v.mul(y.v)), "product");
            let mut r = a;
            r *= b;
            sx::assert(amt(&r).eq(x.v.mul(y.v)), "product in place");
        }
        _ => {
            let shapes = [(20, 0), (1, 20), (12, 8), (3, 15)];
            let p = shapes[sx::choose(4)];
            let x = long(neg.0, p.0, p.1, d, 0);
            let a = Amount::new(q(&x), c);
            sx::assert(amt(&a.inverse()).eq(x.v.neg()), "inverse");
            sx::assert(amt(&a.abs()).eq(if neg.0 { x.v.neg() } else { x.v }), "absolute value");
            sx::assert(amt(&Amount::copy_from(&a)).eq(x.v), "copy");
        }
    }
    sx::cover("end");
}
/// Quantities on their own.
#[no_mangle]
pub fn h_c05_quantity() {
    let (x, y) = (num(&[(1, 0), (1, 2)]), num(&[(2, 0), (0, 1)]));
    let (a, b) = (q(&x), q(&y));
    match sx::choose(6) {
        0 => sx::assert(val(&(a + b)).eq(x.v.add(y.v)), "sum"),
        1 => {
            let mut r = a;
            r += b;
            sx::assert(val(&r).eq(x.v.add(y.v)), "sum in place");
        }
        2 => {
            let mut r = a;
            r -= b;
            sx::assert(val(&r).eq(x.v.sub(y.v)), "difference");
        }
        3 => {
            let mut r = a;
            r *= b;
            sx::assert(val(&r).eq(x.v.mul(y.v)), "product in place");
        }
        4 => {
            let s = if x.v.s > y.v.s { x.v.s } else { y.v.s };
            let (m, n) = (x.v.scaled(s), y.v.scaled(s));
            sx::assert((a < b) == (m < n) && (a > b) == (m > n) && (a == b) == (m == n), "order of quantities");
            sx::assert(a.cmp(&b) == m.cmp(&n), "order of quantities");
        }
        _ => {
            sx::assert(a.is_zero() == x.v.is_zero(), "is_zero");
            if !x.v.is_zero() {
                sx::assert(a.is_sign_positive() == (x.v.m > 0), "sign");
            }
            let (mut n, mut p) = (a, a);
            n.set_sign_negative();
            p.set_sign_positive();
            let abs = if x.v.m < 0 { x.v.neg() } else { x.v };
            sx::assert(val(&n).eq(abs.neg()) && val(&p).eq(abs), "sign set");
        }
    }
    sx::cover("end");
}
