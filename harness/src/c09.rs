//! Price directives.
use crate::{sx, util::*};
use chrono::{NaiveDate, NaiveDateTime};
use ledger_rs_lib::journal::Journal;

fn two(hi: u64) -> (Vec<u8>, u64) {
    let (a, b) = (sx::digit(), sx::digit());
    let v = (a - b'0') as u64 * 10 + (b - b'0') as u64;
    sx::assume(v <= hi);
    (vec![a, b], v)
}
fn check(j: &Journal, from: &[u8], to: &[u8], when: NaiveDateTime, v: Dec) {
    let (Some(a), Some(b)) = (j.commodity_pool.find(utf8(from)), j.commodity_pool.find(utf8(to))) else {
        sx::assert(false, "both commodities are known");
        return;
    };
    let far = NaiveDate::from_ymd_opt(2200, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    match j.commodity_pool.verif_find_price(a as *const _, b as *const _, far, when) {
        None => sx::assert(false, "the price is recorded"),
        Some((w, p)) => {
            sx::assert(w == when, "date and time of the price");
            sx::assert(same(sym(&p).as_bytes(), to), "commodity of the price");
            sx::assert(amt(&p).eq(v), "the price is recorded exactly");
        }
    }
    sx::assert(j.commodity_pool.verif_find_price(b as *const _, a as *const _, far, when).is_none(), "prices have a direction");
    sx::assert(j.commodity_pool.len() == 2, "no other commodity is made up");
    sx::cover("end");
}
/// Any time of day, any date out of a list.
#[no_mangle]
pub fn h_c09_time() {
    let (ds, (y, m, d)) = [("2023-04-27", (2023, 4, 27)), ("2024-02-29", (2024, 2, 29)), ("1999-12-31", (1999, 12, 31))][sx::choose(3)];
    let (h, hv) = two(23);
    let (mi, mv) = two(59);
    let (s, sv) = two(59);
    let mut t = T::new();
    t.s("P ").s(ds).s(" ").b(&h).s(":").b(&mi).s(":").b(&s).s(" EUR 1.12 USD");
    let mut j = Journal::new();
    j.commodity_pool.parse_price_directive(t.str());
    let tm = chrono::NaiveTime::from_num_seconds_from_midnight_opt((hv * 3600 + mv * 60 + sv) as u32, 0).unwrap();
    let w = NaiveDateTime::new(NaiveDate::from_ymd_opt(y, m, d).unwrap(), tm);
    check(&j, b"EUR", b"USD", w, fixed("1.12").v);
}
/// Any price, any layout.
#[no_mangle]
pub fn h_c09_value() {
    let v = num(&[(1, 0), (2, 2), (0, 3), (1, 5), (4, 0)]);
    let sep = [" ", "\t", "  ", " \t "];
    let s = |k: u64| sep[sx::choose(k)];
    let mut t = T::new();
    t.s("P").s(s(4)).s("2022-03-01").s(s(2));
    let timed = sx::flip();
    if timed {
        t.s("23:05:09").s(s(3));
    }
    t.s("VEUR_AS").s(s(4)).b(&v.t).s(s(2)).s("EUR");
    t.s(["", " ", "\t", " ; note"][sx::choose(4)]);
    let mut j = Journal::new();
    j.commodity_pool.parse_price_directive(t.str());
    let d = NaiveDate::from_ymd_opt(2022, 3, 1).unwrap();
    let w = if timed { d.and_hms_opt(23, 5, 9) } else { d.and_hms_opt(0, 0, 0) }.unwrap();
    check(&j, b"VEUR_AS", b"EUR", w, v.v);
}
/// Any symbols.
#[no_mangle]
pub fn h_c09_symbol() {
    let set = &but(b"0123456789")[..];
    let n = sx::param(0, 3);
    // the symbol of a directive without a time does not start with a digit
    let a = word(1 + sx::choose(n), set);
    let b = word(1 + sx::choose(n), set);
    sx::assume(!same(&a, &b));
    let mut t = T::new();
    t.s("P 2022-03-01 ");
    if sx::flip() {
        t.s("00:00:00 ");
    }
    t.b(&a).s(" 2.5 ").b(&b);
    let mut j = Journal::new();
    j.commodity_pool.parse_price_directive(t.str());
    check(&j, &a, &b, NaiveDate::from_ymd_opt(2022, 3, 1).unwrap().and_hms_opt(0, 0, 0).unwrap(), fixed("2.5").v);
}
/// Any day of the year.
#[no_mangle]
pub fn h_c09_date() {
    let ys = ["2023", "2024", "2000", "1999"];
    let k = sx::choose(sx::param(0, 2));
    let (m, mv) = two(12);
    let (d, dv) = two(31);
    sx::assume(mv >= 1 && dv >= 1);
    let mv = sx::conc(mv) as u32;
    let leap = k == 1 || k == 2;
    let last = [31, 28 + leap as u64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mv as usize - 1];
    let valid = dv <= last;
    let mut t = T::new();
    t.s("P ").s(ys[k]).s("-").b(&m).s("-").b(&d).s(" EUR 1.12 USD");
    let mut j = Journal::new();
    if !valid {
        sx::may_refuse(|| j.commodity_pool.parse_price_directive(t.str()));
        sx::assert(false, "a date that does not exist is refused");
        return;
    }
    j.commodity_pool.parse_price_directive(t.str());
    let dv = sx::conc(dv) as u32;
    let w = NaiveDate::from_ymd_opt([2023, 2024, 2000, 1999][k], mv, dv).unwrap().and_hms_opt(0, 0, 0).unwrap();
    check(&j, b"EUR", b"USD", w, fixed("1.12").v);
}
/// Several directives: the latest moment counts, whatever their order.
#[no_mangle]
pub fn h_c09_series() {
    let n = sx::param(0, 3) as usize;
    let mut j = Journal::new();
    let mut best: Option<(NaiveDateTime, Dec)> = None;
    for _ in 0..n {
        let k = sx::choose(4);
        let v = digits(false, 1, 0);
        let mut t = T::new();
        t.s("P ").s(["2022-03-01", "2022-03-01 10:00:00", "2022-03-01 9:59:59", "2022-02-28 23:59:59"][k]).s(" EUR ").b(&v.t).s(" USD");
        j.commodity_pool.parse_price_directive(t.str());
        let d = NaiveDate::from_ymd_opt(2022, 3, 1).unwrap();
        let w = [d.and_hms_opt(0, 0, 0), d.and_hms_opt(10, 0, 0), d.and_hms_opt(9, 59, 59), d.pred_opt().unwrap().and_hms_opt(23, 59, 59)][k].unwrap();
        if best.map_or(true, |b| b.0 <= w) {
            best = Some((w, v.v));
        }
    }
    let (w, v) = best.unwrap();
    check(&j, b"EUR", b"USD", w, v);
}

/// Directives of several pairs, both directions included: each pair keeps its own prices.
#[no_mangle]
pub fn h_c09_pairs() {
    let n = sx::param(0, 3) as usize;
    let mut j = Journal::new();
    let pairs = [("EUR", "USD"), ("USD", "EUR"), ("EUR", "GBP"), ("eur", "USD"), ("USD", "GBP")];
    let times = [" 10:00:00", "", " 09:00:00"];
    let mut best: [Option<(NaiveDateTime, Dec)>; 5] = [None; 5];
    let d = NaiveDate::from_ymd_opt(2022, 3, 1).unwrap();
    for i in 0..n {
        let e = sx::choose(5);
        let k = sx::choose(if i < 2 { 2 } else { 3 });
        let v = digits(false, 1, 1);
        let mut t = T::new();
        t.s("P 2022-03-01").s(times[k]).s(" ").s(pairs[e].0).s(" ").b(&v.t).s(" ").s(pairs[e].1);
        j.commodity_pool.parse_price_directive(t.str());
        let w = d.and_hms_opt([10, 0, 9][k], 0, 0).unwrap();
        if best[e].map_or(true, |b| b.0 <= w) {
            best[e] = Some((w, v.v));
        }
    }
    let far = NaiveDate::from_ymd_opt(2200, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    let mut used: Vec<&str> = vec![];
    for e in 0..5 {
        let Some((w, v)) = best[e] else { continue };
        let (Some(a), Some(b)) = (j.commodity_pool.find(pairs[e].0), j.commodity_pool.find(pairs[e].1)) else {
            sx::assert(false, "both commodities are known");
            return;
        };
        for s in [pairs[e].0, pairs[e].1] {
            if !used.contains(&s) {
                used.push(s);
            }
        }
        match j.commodity_pool.verif_find_price(a as *const _, b as *const _, far, w) {
            None => sx::assert(false, "the price is recorded"),
            Some((x, p)) => {
                sx::assert(x == w, "date and time of the price");
                sx::assert(sym(&p) == pairs[e].1 && amt(&p).eq(v), "the price is recorded exactly");
            }
        }
    }
    sx::assert(j.commodity_pool.len() == used.len(), "no other commodity is made up");
    sx::cover("end");
}
/// Long prices.
#[no_mangle]
pub fn h_c09_long() {
    let shapes = [(1, 10), (9, 0), (7, 8), (0, 16), (1, 20)];
    let (ni, nf) = shapes[sx::choose(5)];
    let neg = sx::choose(4) == 3;
    let mut t = T::new();
    t.s("P 2022-03-01 EUR ");
    let mut m: i128 = 0;
    if neg {
        t.s("-");
    }
    for k in 0..ni + nf {
        if k == ni {
            t.s(".");
        }
        let c = if k + 2 >= ni + nf { sx::digit() } else { b'1' + (k * 7 % 9) as u8 };
        t.b(&[c]);
        m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    t.s(" USD");
    let mut j = Journal::new();
    j.commodity_pool.parse_price_directive(t.str());
    let d = NaiveDate::from_ymd_opt(2022, 3, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    check(&j, b"EUR", b"USD", d, Dec { m: if neg { -m } else { m }, s: nf as u32 });
}
/// A time that does not exist is refused, not read as another one.
#[no_mangle]
pub fn h_c09_bad() {
    let (h, hv) = two(99);
    let (mi, mv) = two(99);
    let (s, sv) = two(99);
    // one of the parts is symbolic
    let k = sx::choose(3);
    let mut t = T::new();
    t.s("P 2023-04-27 ").b(if k == 0 { &h } else { b"11" }).s(":").b(if k == 1 { &mi } else { b"22" }).s(":").b(if k == 2 { &s } else { b"33" }).s(" EUR 1.12 USD");
    let (hv, mv, sv) = (if k == 0 { hv } else { 11 }, if k == 1 { mv } else { 22 }, if k == 2 { sv } else { 33 });
    sx::assume(sv != 60);
    let mut j = Journal::new();
    if hv > 23 || mv > 59 || sv > 59 {
        sx::may_refuse(|| j.commodity_pool.parse_price_directive(t.str()));
        sx::assert(false, "a time that does not exist is refused");
        return;
    }
    j.commodity_pool.parse_price_directive(t.str());
    let tm = chrono::NaiveTime::from_num_seconds_from_midnight_opt((hv * 3600 + mv * 60 + sv) as u32, 0).unwrap();
    check(&j, b"EUR", b"USD", NaiveDateTime::new(NaiveDate::from_ymd_opt(2023, 4, 27).unwrap(), tm), fixed("1.12").v);
}
/// A date of another shape is refused, or is that date.
#[no_mangle]
pub fn h_c09_shape() {
    let w = word(4, b"0129-/.: ");
    let mut t = T::new();
    let k = sx::choose(3);
    t.s("P ").s(["2023-0", "2023-", "2023-04"][k]).b(&w).s(["", "", "-1"][k]).s(" EUR 1.12 USD");
    let mut j = Journal::new();
    sx::may_refuse(|| j.commodity_pool.parse_price_directive(t.str()));
    // accepted: the text is a date (and perhaps a time)
    let far = NaiveDate::from_ymd_opt(2200, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    let (Some(a), Some(b)) = (j.commodity_pool.find("EUR"), j.commodity_pool.find("USD")) else {
        return;
    };
    let Some((when, p)) = j.commodity_pool.verif_find_price(a as *const _, b as *const _, far, far) else {
        sx::assert(false, "the price is recorded");
        return;
    };
    sx::assert(amt(&p).eq(fixed("1.12").v), "the price is recorded exactly");
    let line = t.0.clone();
    let mut ok = false;
    if line.len() > 12 && line[6] == b'-' {
        // the parts of the date as written, month and day of one or two digits
        let mut i = 7;
        let mut parts = [0u32; 2];
        for p in 0..2 {
            let mut n = 0;
            while n < 2 && line[i] >= b'0' && line[i] <= b'9' {
                parts[p] = parts[p] * 10 + (line[i] - b'0') as u32;
                i += 1;
                n += 1;
            }
            if p == 0 && line[i] == b'-' {
                i += 1;
            }
        }
        ok = when.date() == NaiveDate::from_ymd_opt(2023, parts[0], parts[1]).unwrap_or(NaiveDate::MIN);
    }
    sx::assert(ok, "a date is read as written or refused");
    sx::cover("end");
}
/// Directives among the transactions of a text.
#[no_mangle]
pub fn h_c09_text() {
    let v = num(&[(1, 0), (1, 2)]);
    let (h, hv) = two(23);
    let eol = ["\n", "\r\n"][sx::choose(2)];
    let (before, after) = (sx::choose(3), sx::choose(3));
    let around = |t: &mut T, k: usize| {
        match k {
            1 => t.s("2023-01-02 Shop").s(eol).s("  A  3 XYZ").s(eol).s("  B").s(eol).s(eol),
            2 => t.s("; comment").s(eol).s("P 2021-01-01 CHF 3 USD").s(eol),
            _ => t,
        };
    };
    let mut t = T::new();
    around(&mut t, before);
    let timed = sx::flip();
    t.s("P 2022-03-01 ");
    if timed {
        t.b(&h).s(":30:00 ");
    }
    t.s("EUR ").b(&v.t).s(" USD").s(["", " ", "  ; note"][sx::choose(3)]);
    if after > 0 || sx::flip() {
        t.s(eol);
    }
    around(&mut t, after);
    let mut j = Journal::new();
    ledger_rs_lib::parse_text(t.str(), &mut j);
    let far = NaiveDate::from_ymd_opt(2200, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    let tm = chrono::NaiveTime::from_num_seconds_from_midnight_opt(if timed { (hv * 3600 + 1800) as u32 } else { 0 }, 0).unwrap();
    let when = NaiveDateTime::new(NaiveDate::from_ymd_opt(2022, 3, 1).unwrap(), tm);
    let pool = &j.commodity_pool;
    let (Some(a), Some(b)) = (pool.find("EUR"), pool.find("USD")) else {
        sx::assert(false, "both commodities are known");
        return;
    };
    match pool.verif_find_price(a as *const _, b as *const _, far, when) {
        None => sx::assert(false, "the price is recorded"),
        Some((w, p)) => {
            sx::assert(w == when, "date and time of the price");
            sx::assert(sym(&p) == "USD" && amt(&p).eq(v.v), "the price is recorded exactly");
        }
    }
    let n = (before == 1) as usize + (after == 1) as usize;
    sx::assert(j.xacts.len() == n, "the transactions of the text");
    sx::assert(j.xacts.iter().all(|x| x.posts.len() == 2), "the postings of the text");
    sx::assert(pool.len() == 2 + (n > 0) as usize + (before == 2 || after == 2) as usize, "the commodities of the text");
    consistent(&j);
    sx::cover("end");
}
/// Nothing else is taken for a price directive.
#[no_mangle]
pub fn h_c09_only() {
    let n = sx::param(0, 2);
    let w = word(1 + sx::choose(n), b"abcdeinprtvyACDNPYZ!@=~-");
    sx::assume(!(w.len() == 1 && w[0] == b'P'));
    let mut t = T::new();
    t.b(&w).s([" ", "\t"][sx::choose(2)]).s("2022-03-01 EUR 1.12 USD\n");
    let mut j = Journal::new();
    sx::may_refuse(|| ledger_rs_lib::parse_text(t.str(), &mut j));
    sx::assert(j.commodity_pool.len() == 0, "only a price directive records a price");
}
/// Long symbols, wide gaps.
#[no_mangle]
pub fn h_c09_wide() {
    let n = sx::param(0, 500) as usize;
    let place = sx::choose(5);
    let a = if place == 0 { long(n, b"xyzXYZ_") } else { b"ABC".to_vec() };
    let b = if place == 1 { long(n, b"xyzXYZ_") } else { b"EUR".to_vec() };
    let x = digits(false, 1, 2);
    let mut t = T::new();
    t.s("P ").sp(if place == 2 { n } else { 0 }).s("2023-04-05 ").sp(if place == 3 { n } else { 0 }).b(&a).s(" ").b(&x.t).s(" ").sp(if place == 4 { n } else { 0 }).b(&b);
    let mut j = Journal::new();
    if sx::flip() {
        t.s("\n");
        ledger_rs_lib::parse_text(t.str(), &mut j);
    } else {
        j.commodity_pool.parse_price_directive(t.str());
    }
    sx::assert(j.commodity_pool.len() == 2, "two commodities");
    sx::assert(j.commodity_pool.find(utf8(&a)).is_some() && j.commodity_pool.find(utf8(&b)).is_some(), "the symbols as written");
    match crate::c06::price(&j, utf8(&a), utf8(&b)) {
        None => sx::assert(false, "a price is known"),
        Some((d, p)) => {
            sx::assert(d == crate::c06::day(2023, 4, 5), "at the date stated");
            sx::assert(amt(&p).eq(x.v) && same(sym(&p).as_bytes(), &b), "the price stated");
        }
    }
    sx::cover("end");
}
/// Whatever features meet in a transaction: the prices.
#[no_mangle]
pub fn h_c09_meet() {
    crate::mix::run(crate::mix::PRICES, sx::param(0, 2));
}
