//! Identity of commodities.
use crate::{sx, util::*};
use ledger_rs_lib::{commodity::Commodity, journal::Journal, parse_text, parser};

type C = *const Commodity;

/// Any sequence of symbols: one commodity for each, found again by symbol and by index.
#[no_mangle]
pub fn h_c17_pool() {
    let (n, len) = (sx::param(0, 4) as usize, sx::param(1, 2) as usize);
    let mut j = Journal::new();
    let p = &mut j.commodity_pool;
    let mut seen: Vec<(Vec<u8>, C)> = vec![];
    for i in 0..n {
        let k = 1 + sx::choose(len as u64);
        let s = word(k, b"aAb$.");
        let known = seen.iter().any(|x| same(&x.0, &s));
        let c = match if i > 0 { sx::choose(2) } else { 0 } {
            0 => p.find_or_create(utf8(&s), None),
            _ => match p.find(utf8(&s)) {
                Some(c) => {
                    sx::assert(known, "only known commodities are found");
                    c as C
                }
                None => {
                    sx::assert(!known, "a known commodity is found");
                    sx::assert(p.find_index(utf8(&s)).is_none(), "an unknown commodity has no index");
                    continue;
                }
            },
        };
        sx::assert(sx::live(c), "a commodity is valid");
        sx::assert(same(unsafe { &*c }.symbol.as_bytes(), &s), "symbol of a commodity");
        for (t, d) in &seen {
            sx::assert(same(t, &s) == (*d == c), "commodities are the same exactly when their symbols are");
        }
        if !known {
            seen.push((s, c));
        }
    }
    sx::assert(p.len() == seen.len(), "each commodity counts once");
    let mut idx = vec![];
    for (s, c) in &seen {
        sx::assert(sx::live(*c) && same(unsafe { &**c }.symbol.as_bytes(), s), "a commodity stays valid");
        match p.find_index(utf8(s)) {
            None => sx::assert(false, "a commodity has an index"),
            Some(i) => {
                sx::assert(p.get_by_index(i) as C == *c, "the index leads to the commodity");
                sx::assert(!idx.contains(&i), "an index belongs to one commodity");
                idx.push(i);
            }
        }
        sx::assert(p.find(utf8(s)).map(|x| x as C) == Some(*c), "a commodity is found by its symbol");
    }
    sx::cover("end");
}
/// Symbols in a text, in any layout.
#[no_mangle]
pub fn h_c17_text() {
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    let mut syms = vec![];
    for i in 0..n {
        let lay = LAYS[sx::choose(4)];
        let k = 1 + (i == 1) as usize;
        let s = word(k, b"aAb$.");
        // a point next to a digit belongs to the number
        sx::assume(s[0] != b'.' && (lay != Lay::SymNum || s[k - 1] != b'.'));
        t.s("2023-04-21 Payee\n  A  ");
        write_amount(&mut t, lay, &fixed("5"), &s);
        t.s("\n  B\n\n");
        syms.push(s);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == n, "number of transactions");
    let mut cs: Vec<C> = vec![];
    for (x, s) in j.xacts.iter().zip(&syms) {
        let (a, b) = (x.posts[0].amount.unwrap(), x.posts[1].amount.unwrap());
        let (Some(c), Some(d)) = (a.get_commodity(), b.get_commodity()) else {
            sx::assert(false, "an amount has a commodity");
            return;
        };
        sx::assert(same(c.symbol.as_bytes(), s), "symbol of an amount");
        sx::assert(c as C == d as C, "the elided amount has the same commodity");
        sx::assert(j.commodity_pool.find(utf8(s)).map(|x| x as C) == Some(c as C), "the commodity is the pool's");
        cs.push(c);
    }
    let mut distinct = 0;
    for i in 0..n {
        let mut first = true;
        for k in 0..i {
            sx::assert(same(&syms[i], &syms[k]) == (cs[i] == cs[k]), "commodities are the same exactly when their symbols are");
            first &= !same(&syms[i], &syms[k]);
        }
        if first {
            distinct += 1;
        }
    }
    sx::assert(j.commodity_pool.len() == distinct, "each commodity counts once");
    sx::cover("end");
}
/// Lot prices, lot dates and costs do not make other commodities of a symbol.
#[no_mangle]
pub fn h_c17_lots() {
    let forms = ["5 VEUR", "5 VEUR {20 EUR}", "VEUR 5 [2023-01-01]", "5VEUR{20 EUR} [2023-02-02]", "5 VEUR @ 20 EUR", "5 VEUR @@ 20 EUR", "5 VEUR {20 EUR} @ 21 EUR"];
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    for _ in 0..n {
        t.s("2023-04-21 Payee\n  A  ").s(forms[sx::choose(7)]).s("\n  B\n\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let mut c: Option<C> = None;
    for x in &j.xacts {
        let a = x.posts[0].amount.unwrap();
        let d = a.get_commodity().unwrap();
        sx::assert(d.symbol == "VEUR", "symbol of an amount");
        sx::assert(c.is_none() || c == Some(d as C), "one commodity for one symbol");
        c = Some(d);
        let e = x.posts[1].amount.unwrap();
        let s = sym(&e);
        sx::assert(s == "VEUR" || s == "EUR", "commodity of the other posting");
        sx::assert(j.commodity_pool.find(s).map(|x| x as C) == e.get_commodity().map(|x| x as C), "the commodity is the pool's");
    }
    sx::assert(j.commodity_pool.len() <= 2, "each commodity counts once");
    consistent(&j);
    sx::cover("end");
}
/// Amounts read on their own and in a text share the commodities; none for a bare number.
#[no_mangle]
pub fn h_c17_amounts() {
    let mut j = Journal::new();
    let mut t = T::new();
    let lay = LAYS[sx::choose(5)];
    let n = num(&[(1, 0), (1, 1)]);
    let s = word(2, b"aAb$");
    write_amount(&mut t, lay, &n, &s);
    let first = sx::flip();
    let pooled = if first { j.commodity_pool.find_or_create(utf8(&s), None) } else { std::ptr::null() };
    let Some(a) = parser::parse_amount(t.str(), &mut j) else {
        sx::assert(false, "the amount is read");
        return;
    };
    sx::assert(amt(&a).eq(n.v), "quantity");
    match a.get_commodity() {
        None => sx::assert(lay == Lay::Bare, "an amount with a symbol has a commodity"),
        Some(c) => {
            sx::assert(lay != Lay::Bare, "an amount without a symbol has no commodity");
            sx::assert(same(c.symbol.as_bytes(), &s), "symbol of an amount");
            sx::assert(!first || c as C == pooled, "the commodity is the one the pool has");
        }
    }
    sx::assert(j.commodity_pool.find("").is_none(), "there is no commodity without a symbol");
    sx::assert(j.commodity_pool.find_or_create("", None).is_null(), "there is no commodity without a symbol");
    sx::assert(j.commodity_pool.len() == (first || lay != Lay::Bare) as usize, "each commodity counts once");
    sx::cover("end");
}
/// A commodity created again keeps its identity and its prices.
#[no_mangle]
pub fn h_c17_create() {
    let n = sx::param(0, 4) as usize;
    let mut j = Journal::new();
    let p = &mut j.commodity_pool;
    let mut refs: Vec<(usize, C)> = vec![];
    let names = ["EUR", "USD", "eur"];
    for _ in 0..n {
        let k = sx::choose(3);
        let c = if sx::flip() { p.create(names[k], None) } else { p.find_or_create(names[k], None) };
        for (i, d) in &refs {
            sx::assert((*i == k) == (*d == c), "commodities are the same exactly when their symbols are");
        }
        refs.push((k, c));
    }
    for (k, c) in &refs {
        sx::assert(sx::live(*c) && unsafe { &**c }.symbol == names[*k], "a commodity stays valid");
        let i = p.find_index(names[*k]);
        sx::assert(i.is_some() && p.get_by_index(i.unwrap()) as C == *c, "the index leads to the commodity");
    }
    sx::cover("end");
}

/// Indices and prices of commodities stay theirs, whatever is read or created afterwards.
#[no_mangle]
pub fn h_c17_keep() {
    let n = sx::param(0, 3) as usize;
    let mut j = Journal::new();
    let names = ["EUR", "USD", "ABC"];
    let first = digits(false, 1, 1);
    let mut t = T::new();
    t.s("2023-01-01 P\n  A  2 ABC @ ").b(&first.t).s(" EUR\n  B  -3 USD\n  C  3 USD\n");
    sx::assume(!first.v.is_zero());
    parse_text(t.str(), &mut j);
    let ptrs: Vec<C> = names.iter().map(|s| j.commodity_pool.find(s).map_or(std::ptr::null(), |c| c as C)).collect();
    let idx: Vec<_> = names.iter().map(|s| j.commodity_pool.find_index(s)).collect();
    for i in 0..n {
        match sx::choose(8) {
            0 => parse_text("2023-01-02 P\n  A  5 ABC {3 EUR} [2020-01-01]\n  B\n", &mut j),
            1 => parse_text("2022-01-02 P\n  A  5 ABC @ 8 EUR\n  B\n", &mut j),
            2 => {
                j.commodity_pool.create(names[i % 3], None);
            }
            3 => {
                j.commodity_pool.find_or_create(names[(i + 1) % 3], None);
            }
            4 => j.commodity_pool.parse_price_directive("P 2022-01-01 ABC 4 EUR"),
            5 => {
                parser::parse_amount("7 ABC", &mut j);
            }
            6 => parse_text("2023-01-02 P\n  A  5 NEW\n  B\n\n2023-01-03 P\n  A  5 abc\n  B\n", &mut j),
            _ => {
                j.commodity_pool.create("eur", None);
            }
        }
    }
    for k in 0..3 {
        let f = j.commodity_pool.find(names[k]).map(|c| c as C);
        sx::assert(f == Some(ptrs[k]), "a commodity keeps its identity");
        sx::assert(unsafe { &*ptrs[k] }.symbol == names[k], "symbol of a commodity");
        sx::assert(idx[k].is_some() && j.commodity_pool.find_index(names[k]) == idx[k], "a commodity keeps its index");
        sx::assert(j.commodity_pool.get_by_index(idx[k].unwrap()) as C == ptrs[k], "the index leads to the commodity");
    }
    crate::c06::check_price(&j, "ABC", "EUR", crate::c06::day(2023, 1, 1), first.v);
    consistent(&j);
    sx::cover("end");
}
/// Symbols that are alike in everything but one place.
#[no_mangle]
pub fn h_c17_alike() {
    let n = sx::param(0, 4) as usize;
    let base = b"ABCDEFGH";
    let mut s = base[..n].to_vec();
    let k = sx::choose(n as u64);
    s[k] = sx::byte(&but(b"0123456789-,;@{}[]()\""));
    // a longer or shorter one, too
    match sx::choose(3) {
        0 => {}
        1 => {
            s.pop();
        }
        _ => s.push(sx::byte(b"Xx_")),
    }
    // a leading point belongs to a number
    sx::assume(!s.is_empty() && s[0] != b'.');
    let lay = LAYS[sx::choose(2)];
    let mut t = T::new();
    t.s("2023-01-01 P\n  A  1 ").b(&base[..n]).s("\n  B\n\n2023-01-01 P\n  A  ");
    write_amount(&mut t, lay, &fixed("2"), &s);
    t.s("\n  B\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let (a, b) = (j.xacts[0].posts[0].amount.unwrap(), j.xacts[1].posts[0].amount.unwrap());
    let (Some(c), Some(d)) = (a.get_commodity(), b.get_commodity()) else {
        sx::assert(false, "an amount has a commodity");
        return;
    };
    let eq = same(&base[..n], &s);
    sx::assert(same(d.symbol.as_bytes(), &s), "symbol of an amount");
    sx::assert((c as C == d as C) == eq, "commodities are the same exactly when their symbols are");
    sx::assert(j.commodity_pool.len() == 2 - eq as usize, "each commodity counts once");
    sx::cover("end");
}

/// A symbol and the same one with something put before or after it.
#[no_mangle]
pub fn h_c17_affix() {
    let n = sx::param(0, 1) as usize;
    let base = b"Fr";
    let set = &text_but(b"")[..];
    let before = sx::flip();
    let w = word(n, set);
    let s = if before { [&w[..], base].concat() } else { [base, &w[..]].concat() };
    let swap = sx::flip();
    let mut j = Journal::new();
    let p = &mut j.commodity_pool;
    let (x, y) = if swap { (&s[..], &base[..]) } else { (&base[..], &s[..]) };
    let c = p.find_or_create(utf8(x), None);
    sx::assert(p.find(utf8(y)).is_none(), "only known commodities are found");
    let d = p.find_or_create(utf8(y), None);
    sx::assert(c != d, "commodities are the same exactly when their symbols are");
    for (z, e) in [(x, c), (y, d)] {
        sx::assert(same(unsafe { &*e }.symbol.as_bytes(), z), "symbol of a commodity");
        sx::assert(p.find(utf8(z)).map(|k| k as C) == Some(e), "a commodity is found by its symbol");
        let i = p.find_index(utf8(z));
        sx::assert(i.is_some() && p.get_by_index(i.unwrap()) as C == e, "the index leads to the commodity");
    }
    sx::assert(p.len() == 2, "each commodity counts once");
    sx::cover("end");
}
/// Long symbols that differ in one character or in their length.
#[no_mangle]
pub fn h_c17_long() {
    let n = sx::param(0, 200) as usize;
    let a = long(n, b"xyzXYZ_");
    let mut b = a.clone();
    let at = [0, n / 2, n - 1, n][sx::choose(4)];
    if at == n {
        b.push(b'_');
    } else {
        b[at] = sx::byte(b"xyzXYZ_");
    }
    let mut j = Journal::new();
    let lay = LAYS[sx::choose(4)];
    let mut t = T::new();
    t.s("2023-01-01 P\n  A  ");
    write_amount(&mut t, lay, &fixed("2"), &a);
    t.s("\n  B\n\n2023-01-01 P\n  A  ");
    write_amount(&mut t, lay, &fixed("3"), &b);
    t.s("\n  B\n");
    parse_text(t.str(), &mut j);
    let eq = same(&a, &b);
    let (x, y) = (j.xacts[0].posts[0].amount.unwrap(), j.xacts[1].posts[0].amount.unwrap());
    sx::assert(same(sym(&x).as_bytes(), &a) && same(sym(&y).as_bytes(), &b), "symbol of an amount");
    sx::assert((x.get_commodity().map(|c| c as C) == y.get_commodity().map(|c| c as C)) == eq, "commodities are the same exactly when their symbols are");
    sx::assert(j.commodity_pool.len() == if eq { 1 } else { 2 }, "one commodity for each symbol");
    sx::assert(j.commodity_pool.find(utf8(&a)).map(|c| c as C) == x.get_commodity().map(|c| c as C), "found by its symbol");
    sx::cover("end");
}
/// Many commodities.
#[no_mangle]
pub fn h_c17_large() {
    let n = sx::param(0, 150) as usize;
    let name = |i: usize| format!("S{}{}", (b'a' + (i % 26) as u8) as char, ["", "x", "X", "_", "aa", "ab"][i / 26]);
    let mut j = Journal::new();
    let text = sx::flip();
    let mut t = T::new();
    let mut ps: Vec<C> = vec![];
    for i in 0..n {
        if text {
            t.s("2023-01-01 P\n  A  1 ").s(&name(i)).s("\n  B\n\n");
        } else {
            ps.push(j.commodity_pool.find_or_create(&name(i), None));
        }
    }
    if text {
        parse_text(t.str(), &mut j);
        ps = j.xacts.iter().map(|x| x.posts[0].amount.unwrap().get_commodity().unwrap() as C).collect();
    }
    sx::assert(j.commodity_pool.len() == n, "one commodity for each symbol");
    for i in 0..n {
        let s = name(i);
        sx::assert(sx::live(ps[i]) && unsafe { &(*ps[i]).symbol } == &s, "a commodity keeps its symbol");
        sx::assert(j.commodity_pool.find(&s).map(|c| c as C) == Some(ps[i]), "found by its symbol");
        let k = j.commodity_pool.find_index(&s).unwrap();
        sx::assert(j.commodity_pool.get_by_index(k) as *const Commodity == ps[i], "found by its index");
        sx::assert(j.commodity_pool.find_or_create(&s, None) == ps[i], "the same commodity again");
    }
    sx::cover("end");
}
/// Whatever features meet in a transaction: the commodities.
#[no_mangle]
pub fn h_c17_meet() {
    crate::mix::run(crate::mix::SYMBOLS, sx::param(0, 2));
}
