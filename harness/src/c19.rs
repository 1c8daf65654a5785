//! Texts that are not amounts are not read as amounts.
use crate::{c06::day, sx, util::*};
use ledger_rs_lib::{amount::Quantity, journal::Journal, parse_text, parser};

/// The value of [-]d*[.d*] with at least one digit and nothing else.
fn value(s: &[u8]) -> Option<Dec> {
    match read_num(s) {
        Some((d, n)) if n == s.len() => Some(d),
        _ => None,
    }
}
const SET: &[u8] = b"0123456789-.,";

/// Symbol and value of an amount of the symbol EUR and the text; None if it is not one.
/// Points between the symbol and the number belong to an abbreviated symbol.
fn amount(lay: Lay, s: &[u8]) -> Option<(&'static str, Dec)> {
    match lay {
        Lay::Bare => value(s).map(|v| ("", v)),
        Lay::SymNum => {
            let names = ["EUR", "EUR.", "EUR..", "EUR...", "EUR....", "EUR.....", "EUR......"];
            let mut i = 0;
            while i < s.len() {
                if let Some(v) = value(&s[i..]) {
                    return Some((names[i], v));
                }
                if s[i] != b'.' {
                    return None;
                }
                i += 1;
            }
            None
        }
        _ => value(s).map(|v| ("EUR", v)),
    }
}

/// Any text of number characters as the amount of a posting.
#[no_mangle]
pub fn h_c19_post() {
    let n = 1 + sx::choose(sx::param(0, 4));
    let s = word(n, SET);
    let lay = LAYS[sx::choose(5)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ");
    write_amount(&mut t, lay, &Num { t: s.clone(), v: Dec::zero() }, b"EUR");
    t.s("\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    match amount(lay, &s) {
        None => sx::assert(false, "a text that is not a number is refused"),
        Some((symbol, v)) => {
            let w = |a: &str, v: Dec| Want { account: a.to_string(), amount: v, symbol: symbol.to_string() };
            check_journal(&j, &[vec![w("A", v), w("B", v.neg())]]);
        }
    }
}
/// The same as the cost of a posting.
#[no_mangle]
pub fn h_c19_cost() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let s = word(n, SET);
    let lay = LAYS[sx::choose(4)];
    let total = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  2 VEUR ").s(if total { "@@ " } else { "@ " });
    write_amount(&mut t, lay, &Num { t: s.clone(), v: Dec::zero() }, b"EUR");
    t.s("\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    match amount(lay, &s) {
        None => sx::assert(false, "a cost that is not a number is refused"),
        Some((symbol, v)) => {
            let c = j.xacts[0].posts[0].cost;
            sx::assert(c.is_some(), "the cost is read");
            let c = c.unwrap();
            sx::assert(sym(&c) == symbol, "commodity of the cost");
            sx::assert(amt(&c).eq(if total { v } else { v.mul(Dec::int(2)) }), "value of the cost");
        }
    }
}
/// Numbers and amounts read on their own.
#[no_mangle]
pub fn h_c19_quantity() {
    let n = 1 + sx::choose(sx::param(0, 4));
    let s = word(n, b"0123456789-.,+ex");
    match Quantity::from_str(utf8(&s)) {
        None => {
            sx::cover("refused");
            // a plain number is not refused
            if let Some(v) = value(&s) {
                let _ = v;
                let dot = s[s.len() - 1] == b'.';
                sx::assert(dot, "a number is read");
            }
        }
        Some(q) => {
            let plus = s[0] == b'+';
            let v = value(if plus { &s[1..] } else { &s });
            sx::cover("read");
            match v {
                None => sx::assert(false, "a text that is not a number is refused"),
                Some(v) => sx::assert(val(&q).eq(v), "value of a number"),
            }
        }
    }
}
#[no_mangle]
pub fn h_c19_amount() {
    let n = 1 + sx::choose(sx::param(0, 4));
    let s = word(n, SET);
    let lay = LAYS[sx::choose(5)];
    let mut t = T::new();
    write_amount(&mut t, lay, &Num { t: s.clone(), v: Dec::zero() }, b"EUR");
    let mut j = Journal::new();
    let a = sx::may_refuse(|| parser::parse_amount(t.str(), &mut j));
    match (a, amount(lay, &s)) {
        (None, _) => sx::cover("refused"),
        (Some(_), None) => sx::assert(false, "a text that is not a number is refused"),
        (Some(a), Some((symbol, v))) => {
            sx::cover("read");
            sx::assert(amt(&a).eq(v), "value of an amount");
            sx::assert(sym(&a) == symbol, "commodity of an amount");
        }
    }
}
/// Amounts without a number.
#[no_mangle]
pub fn h_c19_none() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let s = word(n, b"aZ$%_-.,+");
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ").b(&s).s(["", " ", " ; 5 EUR"][sx::choose(3)]).s("\n  B  1 EUR\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::assert(false, "an amount without a number is refused");
}
/// The quantity of a price.
#[no_mangle]
pub fn h_c19_price() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let s = word(n, SET);
    let mut t = T::new();
    t.s("P 2023-05-01 EUR ").b(&s).s(" USD");
    let mut j = Journal::new();
    sx::may_refuse(|| j.commodity_pool.parse_price_directive(t.str()));
    let p = &mut j.commodity_pool;
    let (a, b) = (p.find_or_create("EUR", None), p.find_or_create("USD", None));
    match (p.verif_find_price(a, b, day(2100, 1, 1), day(1900, 1, 1)), value(&s)) {
        (None, None) => {}
        (None, Some(_)) => sx::assert(false, "a price that was accepted is there"),
        (Some(_), None) => sx::assert(false, "a price that is not a number is refused"),
        (Some((_, q)), Some(v)) => {
            sx::cover("read");
            sx::assert(amt(&q).eq(v), "value of a price");
        }
    }
}

/// A second number, or a number in parts, is refused.
#[no_mangle]
pub fn h_c19_parts() {
    let s = word(1 + sx::choose(2), b"0123456789");
    let mut r = vec![sx::digit()];
    r.extend(word(sx::choose(sx::param(0, 3)), b"0123456789.,-"));
    let place = sx::choose(4);
    let sep = [" ", "  ", "\t", " EUR", " EUR ", "EUR"][sx::choose(if place == 3 { 3 } else { 6 })];
    let tail = ["", " EUR", " @ 3 USD", "  ; note"][sx::choose(4)];
    let mut a = T::new();
    a.b(&s).s(sep).b(&r).s(tail);
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ");
    match place {
        0 => t.b(&a.0),
        1 => t.s("2 ABC @ ").b(&a.0),
        2 => t.s("2 ABC @@ ").b(&a.0),
        _ => t.s("EUR ").b(&a.0),
    };
    t.s("\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    // nothing of this is an amount
    sx::assert(false, "a second number is refused");
}
/// Any text of number characters as the price of a lot.
#[no_mangle]
pub fn h_c19_lot() {
    let n = 1 + sx::choose(sx::param(0, 3));
    let s = word(n, SET);
    let lay = LAYS[sx::choose(4)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  2 VEUR {");
    write_amount(&mut t, lay, &Num { t: s.clone(), v: Dec::zero() }, b"EUR");
    t.s("} @ 3 EUR\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::cover("accepted");
    match amount(lay, &s) {
        None => sx::assert(false, "a lot price that is not a number is refused"),
        Some((symbol, v)) => {
            // the lot's price shows in the basis cost
            let p = &mut j.commodity_pool;
            let a = ledger_rs_lib::amount::Amount::new(Quantity::from(2), Some(p.find_or_create("VEUR", None)));
            let c = ledger_rs_lib::amount::Amount::new(Quantity::from(6), Some(p.find_or_create("EUR", None)));
            let (b, _) = p.exchange(&a, &c, false, day(2023, 4, 21));
            sx::assert(sym(&b.basis_cost) == symbol && amt(&b.basis_cost).eq(v.mul(Dec::int(2))), "value of the lot price");
        }
    }
}
/// Text after an amount that is neither a lot, a cost nor a note is refused.
#[no_mangle]
pub fn h_c19_rest() {
    let mut r = vec![sx::byte(&but(b"@;={["))];
    r.extend(word(sx::choose(sx::param(0, 3)), &text_but(b"")));
    let (before, after) = [
        ("5 EUR ", ""),
        ("5EUR ", ""),
        ("-0.5 EUR  ", " @ 2 USD"),
        ("EUR 5 ", ""),
        ("EUR5", ""),
        ("EUR5 ", "  ; note"),
        ("+5 ", ""),
        ("5 EUR @ 3 USD ", ""),
        ("5 EUR @@ USD 3", ""),
        ("5 EUR {3 USD} ", ""),
        ("5 EUR {3 USD} [2023-01-01]", ""),
        ("5 EUR {3 USD ", "}"),
        ("5 EUR {USD 3", "} @ 4 USD"),
    ][sx::choose(13)];
    // more of the number is another number
    if before.ends_with(|c: char| c.is_ascii_digit()) {
        sx::assume(!(r[0] >= b'0' && r[0] <= b'9') && r[0] != b'.' && r[0] != b',' && r[0] != b'-');
    }
    // a lot price that ends there is none
    if after.starts_with('}') {
        for c in &r {
            sx::assume(*c != b'}');
        }
    }
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ").s(before).b(&r).s(after).s("\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::assert(false, "text that belongs to nothing is refused");
}
