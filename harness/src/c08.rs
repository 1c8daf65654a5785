//! Price history.
use crate::{
    c06::day,
    sx,
    util::*,
};
use chrono::{Duration, NaiveDateTime};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    commodity::Commodity,
    journal::Journal,
    pool::CommodityPool,
};

type C = *const Commodity;
const NAMES: [&str; 6] = ["AAA", "BBB", "CCC", "DDD", "EEE", "FFF"];
fn pool(n: usize) -> (Journal, Vec<C>) {
    let mut j = Journal::new();
    let v = NAMES[..n].iter().map(|s| j.commodity_pool.find_or_create(s, None)).collect();
    (j, v)
}
fn qty(n: &Num) -> Quantity {
    Quantity::from_str(utf8(&n.t)).unwrap()
}
fn find(p: &CommodityPool, a: C, b: C) -> Option<(NaiveDateTime, Amount)> {
    p.verif_find_price(a, b, day(2100, 1, 1), day(1900, 1, 1))
}
/// A moment on one of some days, at any second of the day.
fn moment(days: u64) -> (NaiveDateTime, u64) {
    let k = sx::choose(days) as u64;
    let s = sx::range(0, 86399);
    let base = [day(2022, 12, 31), day(2023, 1, 1), day(2023, 6, 15)][k as usize];
    let t = chrono::NaiveTime::from_num_seconds_from_midnight_opt(s as u32, 0).unwrap();
    (NaiveDateTime::new(base.date(), t), k * 100_000 + s)
}

/// Prices of one pair: the one with the latest date is found, whatever the order they came in.
#[no_mangle]
pub fn h_c08_latest() {
    let n = sx::param(0, 3) as usize;
    let (mut j, c) = pool(2);
    let mut best: Option<(u64, NaiveDateTime, Dec)> = None;
    for i in 0..n {
        let (w, k) = moment(if i == 1 { 3 } else { 2 });
        let p = digits(false, 1, i % 2);
        j.commodity_pool.add_price(c[0], w, Amount::new(qty(&p), Some(c[1])));
        let newer = match &best {
            None => true,
            Some(b) => k >= b.0,
        };
        if newer {
            best = Some((k, w, p.v));
        }
    }
    let (_, w, p) = best.unwrap();
    match find(&j.commodity_pool, c[0], c[1]) {
        None => sx::assert(false, "a known price is found"),
        Some((d, a)) => {
            sx::assert(d == w, "the latest price is found");
            sx::assert(sym(&a) == "BBB", "the price is in the commodity asked for");
            sx::assert(amt(&a).eq(p), "a price of the same moment replaces the older one");
        }
    }
    sx::assert(find(&j.commodity_pool, c[1], c[0]).is_none(), "prices have a direction");
    sx::cover("end");
}
/// Any set of known pairs among four commodities: a price is found exactly when a chain of prices
/// leads to the target; a shortest chain is used.
#[no_mangle]
pub fn h_c08_graph() {
    let n = sx::param(0, 4) as usize;
    let (mut j, c) = pool(n);
    let primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71];
    let mut edge = vec![vec![None; n]; n];
    let mut k = 0;
    for a in 0..n {
        for b in 0..n {
            if a == b {
                continue;
            }
            // edges into the source and out of the target do not matter for shortest chains
            let skip = n > 3 && (b == 0 || a == n - 1) && (a + b) % 2 == 0;
            if !skip && sx::flip() {
                let p = primes[k % primes.len()];
                let w = day(2023, 1, 1 + ((k as u32 * 7) % 28));
                edge[a][b] = Some((p as i128, w));
                j.commodity_pool.add_price(c[a], w, Amount::new(Quantity::from(p), Some(c[b])));
            }
            k += 1;
        }
    }
    // all shortest chains, with their product and oldest date
    let mut level: Vec<(usize, i128, NaiveDateTime)> = vec![(0, 1, NaiveDateTime::MAX)];
    let mut seen = vec![false; n];
    seen[0] = true;
    let mut ends: Vec<(i128, NaiveDateTime)> = vec![];
    while !level.is_empty() && ends.is_empty() {
        let mut next = vec![];
        for (a, p, w) in &level {
            for b in 0..n {
                if let Some((q, d)) = edge[*a][b] {
                    if !seen[b] {
                        next.push((b, p * q, if d < *w { d } else { *w }));
                    }
                }
            }
        }
        for x in &next {
            seen[x.0] = true;
            if x.0 == n - 1 {
                ends.push((x.1, x.2));
            }
        }
        level = next;
    }
    match find(&j.commodity_pool, c[0], c[n - 1]) {
        None => sx::assert(ends.is_empty(), "a price is found when a chain of prices exists"),
        Some((d, a)) => {
            sx::assert(!ends.is_empty(), "no price is made up");
            sx::assert(sym(&a) == NAMES[n - 1], "the price is in the commodity asked for");
            let v = amt(&a);
            sx::assert(ends.iter().any(|e| v.eq(Dec::int(e.0)) && e.1 == d), "a shortest chain is multiplied; its oldest price dates it");
        }
    }
    sx::cover("end");
}
/// A chain with any prices at any moments.
#[no_mangle]
pub fn h_c08_chain() {
    let n = 3 + sx::choose(sx::param(0, 2)) as usize;
    let (mut j, c) = pool(n);
    let mut prod = Dec::int(1);
    let mut oldest: Option<(u64, NaiveDateTime)> = None;
    // links are added front to back or back to front
    let back = sx::flip();
    for i in 0..n - 1 {
        let i = if back { n - 2 - i } else { i };
        let (w, k) = moment(2);
        let p = digits(false, 1, if i == 0 { 1 } else { 0 });
        j.commodity_pool.add_price(c[i], w, Amount::new(qty(&p), Some(c[i + 1])));
        prod = prod.mul(p.v);
        if oldest.map_or(true, |o| k < o.0) {
            oldest = Some((k, w));
        }
    }
    match find(&j.commodity_pool, c[0], c[n - 1]) {
        None => sx::assert(false, "a price is found when a chain of prices exists"),
        Some((d, a)) => {
            sx::assert(d == oldest.unwrap().1, "the oldest price of the chain dates it");
            sx::assert(sym(&a) == NAMES[n - 1], "the price is in the commodity asked for");
            sx::assert(amt(&a).eq(prod), "prices of a chain are multiplied");
        }
    }
    sx::assert(find(&j.commodity_pool, c[n - 1], c[0]).is_none(), "prices have a direction");
    sx::cover("end");
}
/// Each link of a chain uses its latest price; a direct price is used before a chain.
#[no_mangle]
pub fn h_c08_links() {
    let (mut j, c) = pool(3);
    let mut latest: [Option<(u64, NaiveDateTime, Dec)>; 3] = [None, None, None];
    let n = sx::param(0, 4) as usize;
    let ends = [(0, 1), (1, 2), (0, 2)];
    let mut list = vec![];
    for i in 0..n {
        let e = if i < 2 { i } else { sx::choose(3) };
        let d = 2 + sx::choose(if i == 0 { 1 } else { 3 }) as u32 * 10 - (i == 1) as u32;
        let p = digits(false, 1, 0);
        list.push((e, d, p));
    }
    if sx::flip() {
        list.reverse();
    }
    for (e, d, p) in &list {
        let w = day(2023, 5, *d);
        j.commodity_pool.add_price(c[ends[*e].0], w, Amount::new(qty(p), Some(c[ends[*e].1])));
        if latest[*e].map_or(true, |l| l.1 <= w) {
            latest[*e] = Some((0, w, p.v));
        }
    }
    let (want, when) = match latest[2] {
        Some(l) => (l.2, l.1),
        None => {
            let (a, b) = (latest[0].unwrap(), latest[1].unwrap());
            (a.2.mul(b.2), if a.1 < b.1 { a.1 } else { b.1 })
        }
    };
    match find(&j.commodity_pool, c[0], c[2]) {
        None => sx::assert(false, "a price is found when a chain of prices exists"),
        Some((d, a)) => {
            sx::assert(d == when, "date of the price");
            sx::assert(amt(&a).eq(want), "the latest price of each link is used");
        }
    }
    sx::cover("end");
}
/// The moment asked for and the clock make no difference to known prices; lookups change nothing.
#[no_mangle]
pub fn h_c08_pure() {
    let (mut j, c) = pool(3);
    let (p, q) = (digits(false, 1, 0), digits(false, 1, 1));
    let (d1, d2) = (day(2023, 2, 3), day(2023, 1, 7));
    j.commodity_pool.add_price(c[0], d1, Amount::new(qty(&p), Some(c[1])));
    j.commodity_pool.add_price(c[1], d2, Amount::new(qty(&q), Some(c[2])));
    sx::clock([1_000_000_000u64, 1_900_000_000][sx::choose(2)]);
    let back = Duration::days(sx::choose(3) as i64 * 100);
    let ask = day(2099, 1, 1) - back;
    let mut first = None;
    for _ in 0..2 {
        let r = j.commodity_pool.verif_find_price(c[0], c[2], ask, day(1999, 1, 1));
        let Some((d, a)) = r else {
            sx::assert(false, "a price is found when a chain of prices exists");
            return;
        };
        sx::assert(d == d2, "the oldest price of the chain dates it");
        sx::assert(amt(&a).eq(p.v.mul(q.v)), "prices of a chain are multiplied");
        if let Some(f) = first {
            sx::assert(f == (d, a), "a lookup changes nothing");
        }
        first = Some((d, a));
    }
    sx::assert(j.commodity_pool.len() == 3, "a lookup creates no commodity");
    sx::cover("end");
}

/// A direct price is used before any chain, however many prices each pair has.
#[no_mangle]
pub fn h_c08_detour() {
    let (mut j, c) = pool(4);
    // numbers of prices: direct, over one other, over two others
    let (d, one, two) = (sx::choose(4), sx::choose(3), sx::choose(3));
    let early = sx::flip();
    let base = |k: u32| day(2023, if early { 2 } else { 7 }, k);
    let add = |j: &mut Journal, a: usize, b: usize, n: usize, p: i32, at: fn(u32) -> NaiveDateTime| {
        for i in 0..n {
            j.commodity_pool.add_price(c[a], at(1 + i as u32), Amount::new(Quantity::from(p + i as i32), Some(c[b])));
        }
    };
    let x = digits(false, 1, 0);
    for i in 0..d {
        let v = Amount::new(if i + 1 == d { qty(&x) } else { Quantity::from(77) }, Some(c[3]));
        j.commodity_pool.add_price(c[0], base(1 + i as u32), v);
    }
    add(&mut j, 0, 1, one, 11, |k| day(2023, 5, k));
    add(&mut j, 1, 3, one, 23, |k| day(2023, 5, 10 + k));
    add(&mut j, 1, 2, two, 31, |k| day(2023, 3, k));
    add(&mut j, 2, 3, two, 41, |k| day(2023, 3, 10 + k));
    if one == 0 {
        add(&mut j, 0, 1, two, 11, |k| day(2023, 5, k));
    }
    let got = find(&j.commodity_pool, c[0], c[3]);
    let last = |n: usize| n as i128 - 1;
    let want = if d > 0 {
        Some((base(d as u32), x.v))
    } else if one > 0 {
        Some((day(2023, 5, one as u32), Dec::int((11 + last(one)) * (23 + last(one)))))
    } else if two > 0 {
        Some((day(2023, 3, two as u32), Dec::int((11 + last(two)) * (31 + last(two)) * (41 + last(two)))))
    } else {
        None
    };
    match (got, want) {
        (None, None) => {}
        (Some((w, a)), Some((v, p))) => {
            sx::assert(sym(&a) == "DDD", "the price is in the commodity asked for");
            sx::assert(amt(&a).eq(p), "a shortest chain is used");
            sx::assert(w == v, "date of the price");
        }
        _ => sx::assert(false, "a price is found when a chain of prices exists"),
    }
    sx::cover("end");
}
/// Many prices of one pair, added in any of some orders.
#[no_mangle]
pub fn h_c08_many() {
    let n = sx::param(0, 12) as usize;
    let (mut j, c) = pool(2);
    let m = 1 + sx::choose(n as u64);
    // day of the i-th price: forward, backward, mixed, all on one day (later times)
    let mode = sx::choose(4);
    let x = digits(false, 1, 1);
    let when = |i: usize| match mode {
        0 => day(2023, 5, 1) + Duration::days(i as i64),
        1 => day(2023, 5, 28) - Duration::days(i as i64),
        2 => day(2023, 5, 1 + ((i * 5) % 13) as u32),
        _ => day(2023, 5, 1) + Duration::seconds(i as i64 / 2),
    };
    let mut best = 0;
    let sy = sx::choose(m as u64);
    for i in 0..m {
        let p = if i == sy { qty(&x) } else { Quantity::from(100 + i as i32) };
        j.commodity_pool.add_price(c[0], when(i), Amount::new(p, Some(c[1])));
        if when(i) >= when(best) {
            best = i;
        }
    }
    match find(&j.commodity_pool, c[0], c[1]) {
        None => sx::assert(false, "a known price is found"),
        Some((d, a)) => {
            sx::assert(d == when(best), "the latest price is found");
            sx::assert(amt(&a).eq(if best == sy { x.v } else { Dec::int(100 + best as i128) }), "a price of the same moment replaces the older one");
        }
    }
    sx::assert(find(&j.commodity_pool, c[1], c[0]).is_none(), "prices have a direction");
    sx::cover("end");
}
/// Both directions of a pair are known apart; the prices of one do not show in the other.
#[no_mangle]
pub fn h_c08_both() {
    let (mut j, c) = pool(3);
    let n = sx::param(0, 3) as usize;
    let pairs = [(0, 1), (1, 0), (1, 2), (2, 0)];
    let mut best: [Option<(u64, NaiveDateTime, Dec)>; 4] = [None; 4];
    for i in 0..n {
        let e = sx::choose(4);
        let (w, k) = moment(if i == 0 { 1 } else { 2 });
        let p = digits(false, 1, 0);
        j.commodity_pool.add_price(c[pairs[e].0], w, Amount::new(qty(&p), Some(c[pairs[e].1])));
        if best[e].map_or(true, |b| k >= b.0) {
            best[e] = Some((k, w, p.v));
        }
    }
    for e in 0..4 {
        let got = find(&j.commodity_pool, c[pairs[e].0], c[pairs[e].1]);
        if let Some((_, w, p)) = best[e] {
            match got {
                None => sx::assert(false, "a known price is found"),
                Some((d, a)) => {
                    sx::assert(d == w, "the latest price is found");
                    sx::assert(sym(&a) == NAMES[pairs[e].1] && amt(&a).eq(p), "the latest price of the pair is used");
                }
            }
        }
    }
    sx::cover("end");
}
/// Prices decades or a fraction of a second apart.
#[no_mangle]
pub fn h_c08_far() {
    let at = |i: usize| -> NaiveDateTime {
        match i {
            0 => day(1905, 3, 1),
            1 => day(1969, 12, 31) + Duration::seconds(86399),
            2 => day(1970, 1, 1),
            3 => day(1999, 12, 31),
            4 => day(2000, 2, 29),
            5 => day(2000, 2, 29) + Duration::milliseconds(1),
            6 => day(2000, 2, 29) + Duration::nanoseconds(999),
            7 => day(2023, 2, 28),
            8 => day(2038, 1, 20),
            9 => day(2099, 12, 31),
            10 => day(2400, 1, 1),
            _ => day(9999, 12, 31),
        }
    };
    let n = sx::param(0, 3) as usize;
    let (mut j, c) = pool(3);
    let mut latest: [Option<(NaiveDateTime, Dec)>; 2] = [None, None];
    for i in 0..n {
        let e = if i < 2 { i } else { sx::choose(2) };
        let w = at(sx::choose(12));
        let p = digits(false, 1, 0);
        j.commodity_pool.add_price(c[e], w, Amount::new(qty(&p), Some(c[e + 1])));
        if latest[e].map_or(true, |l| l.0 <= w) {
            latest[e] = Some((w, p.v));
        }
    }
    let (a, b) = (latest[0].unwrap(), latest[1].unwrap());
    for (x, y, w, v) in [(0, 1, a.0, a.1), (1, 2, b.0, b.1), (0, 2, if a.0 < b.0 { a.0 } else { b.0 }, a.1.mul(b.1))] {
        match find(&j.commodity_pool, c[x], c[y]) {
            None => sx::assert(false, "a price is found when a chain of prices exists"),
            Some((d, p)) => {
                sx::assert(d == w, "date of the price");
                sx::assert(amt(&p).eq(v), "the latest price of each link is used");
            }
        }
    }
    sx::cover("end");
}
/// Many prices of one pair, many commodities, long chains.
#[no_mangle]
pub fn h_c08_large() {
    let n = sx::param(0, 200) as usize;
    let mut j = Journal::new();
    let c: Vec<_> = (0..n / 4).map(|i| j.commodity_pool.find_or_create(&format!("C{}", (b'a' + (i % 26) as u8) as char).repeat(1 + i / 26), None)).collect();
    let x = digits(false, 1, 1);
    // prices of the first pair, the latest one anywhere
    let at = [0, n / 2, n - 1][sx::choose(3)];
    let up = sx::flip();
    for i in 0..n {
        let w = if i == at { day(2024, 1, 1) } else { day(2010, 1, 1) + Duration::days(if up { i as i64 } else { (n - i) as i64 }) };
        let p = if i == at { qty(&x) } else { Quantity::from(100 + i as i32) };
        j.commodity_pool.add_price(c[0], w, Amount::new(p, Some(c[1])));
    }
    // a chain through all commodities
    let links = [2, 13, c.len() - 1][sx::choose(3)];
    for i in 1..links {
        let p = if i % 5 == 1 { Quantity::from(2) } else { Quantity::from(1) };
        j.commodity_pool.add_price(c[i], day(2024, 1, 2) + Duration::days(i as i64), Amount::new(p, Some(c[i + 1])));
    }
    let mut k = 1;
    for i in 1..links {
        if i % 5 == 1 {
            k *= 2;
        }
    }
    for (t, f) in [(1, 1), (links, k)] {
        match find(&j.commodity_pool, c[0], c[t]) {
            None => sx::assert(false, "a known price is found"),
            Some((d, a)) => {
                sx::assert(d == day(2024, 1, 1), "the latest price, dated by the oldest link");
                sx::assert(amt(&a).eq(x.v.mul(Dec::int(f))), "prices of a chain are multiplied");
            }
        }
    }
    sx::cover("end");
}
