//! Elided amounts.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text};

fn check(j: &Journal, want: &[Option<Num>], sum: Dec, symbol: &str, elided_symbol: &str) {
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == want.len(), "all postings are read");
    for (i, p) in j.xacts[0].posts.iter().enumerate() {
        let Some(a) = &p.amount else {
            sx::assert(false, "every posting has an amount");
            return;
        };
        match &want[i] {
            Some(x) => {
                sx::assert(sym(a) == symbol, "commodity of a posting");
                sx::assert(amt(a).eq(x.v), "a stated amount is kept")
            }
            None => {
                sx::assert(sym(a) == elided_symbol, "commodity of the elided amount");
                sx::assert(amt(a).eq(sum.neg()), "an elided amount is the negated sum of the others")
            }
        }
    }
    consistent(j);
    sx::cover("end");
}

/// n postings of one commodity, one of them without an amount.
#[no_mangle]
pub fn h_c01_plain() {
    let max = sx::param(0, 3) as usize;
    let n = 2 + sx::choose(max as u64 - 1);
    let e = sx::choose(n as u64);
    let (lay, symbol) = [(Lay::NumSpSym, "EUR"), (Lay::SymNum, "$"), (Lay::Bare, "")][sx::choose(3)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut nums: Vec<Option<Num>> = vec![];
    let mut sum = Dec::zero();
    for i in 0..n {
        t.s("    Acc:").b(&[b'A' + i as u8]);
        if i == e {
            nums.push(None);
        } else {
            let x = num(&[(2, 0), (1, 2)]);
            t.s("  ");
            write_amount(&mut t, lay, &x, symbol.as_bytes());
            sum = sum.add(x.v);
            nums.push(Some(x));
        }
        t.s("\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    if n <= 2 {
        sx::out(&j.xacts[0].posts[e].amount.unwrap().quantity.to_string());
    }
    check(&j, &nums, sum, symbol, symbol);
}

/// Many postings of one sign, one elided.
#[no_mangle]
pub fn h_c01_wide() {
    let max = sx::param(0, 10) as usize;
    let n = 3 + sx::choose(max as u64 - 2);
    let e = [0, n - 1, n / 2][sx::choose(3)];
    let neg = sx::flip();
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut nums: Vec<Option<Num>> = vec![];
    let mut sum = Dec::zero();
    for i in 0..n {
        // the same account comes again
        t.s("  Acc:").b(&[b'A' + (i % 5) as u8]);
        if i == e {
            nums.push(None);
        } else {
            let x = digits(neg, 1 + i % 3, i % 4);
            t.s("  ");
            write_amount(&mut t, Lay::NumSpSym, &x, b"EUR");
            sum = sum.add(x.v);
            nums.push(Some(x));
        }
        t.s("\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &nums, sum, "EUR", "EUR");
}

/// Long numbers of different precision.
#[no_mangle]
pub fn h_c01_long() {
    let d = sx::param(0, 2) as usize;
    let shapes = [(0usize, 9usize, 0usize), (0, 1, 8), (2, 8, 4), (1, 16, 0), (0, 6, 10), (0, 3, 12)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut nums: Vec<Option<Num>> = vec![];
    let mut sum = Dec::zero();
    let neg = [sx::flip(), sx::flip()];
    // one of the numbers ends in symbolic digits
    let which = sx::choose(2);
    for i in 0..2 {
        let (lead, ni, nf) = shapes[sx::choose(shapes.len() as u64)];
        // the first digits known, the last ones symbolic
        let mut text = vec![];
        let mut m: i128 = 0;
        if neg[i] {
            text.push(b'-');
        }
        for k in 0..ni + nf {
            if k == ni {
                text.push(b'.');
            }
            let c = if i == which && k + d >= ni + nf { sx::digit() } else if k < lead { b'0' } else { b'1' + ((k * 7 + i) % 9) as u8 };
            text.push(c);
            m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
        }
        let x = Num { t: text, v: Dec { m: if neg[i] { m.wrapping_neg() } else { m }, s: nf as u32 } };
        t.s("  Acc:").b(&[b'A' + i as u8]).s("  ");
        write_amount(&mut t, Lay::SymSpNum, &x, b"EUR");
        t.s("\n");
        sum = sum.add(x.v);
        nums.push(Some(x));
    }
    t.s("  Rest\n");
    nums.push(None);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &nums, sum, "EUR", "EUR");
}

/// Postings with a cost count with their cost.
#[no_mangle]
pub fn h_c01_cost() {
    let n = 1 + sx::choose(sx::param(0, 2));
    let e = sx::choose(n as u64 + 1);
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut nums: Vec<Option<Num>> = vec![];
    let mut sum = Dec::zero();
    let mut k = 0;
    for i in 0..n + 1 {
        t.s("  Acc:").b(&[b'A' + i as u8]);
        if i == e {
            t.s("\n");
            nums.push(None);
            continue;
        }
        let x = fixed(["10", "-4", "0.5", "-1.25", "3", "0"][sx::choose(if k == 0 { 6 } else { 2 })]);
        t.s("  ");
        write_amount(&mut t, Lay::NumSpSym, &x, b"VEUR");
        if k == 0 && sx::flip() {
            t.s(" {7 EUR} [2022-01-01]");
        }
        let per = x.t[0] == b'3' || k > 0 || sx::flip();
        t.s(if per { " @ " } else { " @@ " });
        let c = if k > 0 { digits(false, 1, 0) } else if n > 1 || sx::flip() { digits(false, 2, 0) } else { digits(false, 1, 2) };
        write_amount(&mut t, Lay::NumSpSym, &c, b"EUR");
        t.s("\n");
        sum = sum.add(if per { x.v.mul(c.v) } else { c.v });
        nums.push(Some(x));
        k += 1;
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &nums, sum, "VEUR", "EUR");
}

/// A transaction is balanced by its own postings only.
#[no_mangle]
pub fn h_c01_history() {
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    let mut want = vec![];
    for i in 0..n {
        t.s("2023-04-2").b(&[b'0' + i as u8]).s(" Payee\n");
        let (a, b) = (digits(i % 2 == 1, 1, 1), digits(false, 1, 0));
        let symbol = ["EUR", "$", "USD"][(i + sx::choose(2)) % 3];
        let mut post = vec![];
        let e = sx::choose(3);
        for k in 0..3 {
            let acc = ["Food", "Cash", "Bank"][(i + k) % 3];
            t.s(" ").s(acc);
            let v = if k == e {
                a.v.add(b.v).neg()
            } else {
                let x = if k == (e + 1) % 3 { &a } else { &b };
                t.s("  ");
                write_amount(&mut t, Lay::NumSpSym, x, symbol.as_bytes());
                x.v
            };
            t.s("\n");
            post.push(Want { account: acc.to_string(), amount: v, symbol: symbol.to_string() });
        }
        t.s("\n");
        want.push(post);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check_journal(&j, &want);
    consistent(&j);
    sx::cover("end");
}

/// Sums that pass through zero, a zero sum, and zeros among the postings.
#[no_mangle]
pub fn h_c01_zero() {
    let (x, y) = (digits(sx::flip(), 1, 1), digits(sx::flip(), 1, 2));
    let nx = negated(&x);
    let z = fixed(["0", "0.00", "-0"][sx::choose(3)]);
    let list: Vec<&Num> = match sx::choose(6) {
        0 => vec![&x, &nx, &y],
        1 => vec![&x, &nx],
        2 => vec![&z, &x, &y],
        3 => vec![&x, &z],
        4 => vec![&z],
        _ => vec![&x, &y, &nx],
    };
    let n = list.len() + 1;
    let e = sx::choose(n as u64);
    let (lay, symbol) = [(Lay::NumSpSym, "EUR"), (Lay::Bare, "")][sx::choose(2)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut nums = vec![];
    let mut sum = Dec::zero();
    let mut k = 0;
    // one account for all of them, or one for each
    let one = sx::flip();
    for i in 0..n {
        t.s("  Acc:").b(&[b'A' + if one { 0 } else { i as u8 }]);
        if i == e {
            nums.push(None);
        } else {
            t.s("  ");
            write_amount(&mut t, lay, list[k], symbol.as_bytes());
            sum = sum.add(list[k].v);
            nums.push(Some(list[k].clone()));
            k += 1;
        }
        t.s("\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check(&j, &nums, sum, symbol, symbol);
}
/// What stands around the postings makes no difference: header, notes, line ends, place of the transaction.
#[no_mangle]
pub fn h_c01_around() {
    let head = ["2023-04-21", "2023-04-21=2023-05-01 Payee", "2023-04-21 Payee  ; note", "2023-04-21 * (code) x"][sx::choose(4)];
    let nl = ["\n", "\r\n"][sx::choose(2)];
    let (x, y) = (digits(false, 1, 1), digits(true, 2, 0));
    let e = sx::choose(3);
    let note = sx::choose(4);
    let tail = ["", "  ", "   ; 7 EUR"][sx::choose(3)];
    let mut t = T::new();
    t.s(["", "; comment\n\n", "2022-01-01 Other\n  Z  5 EUR\n  Acc:A\n\n"][sx::choose(3)]);
    t.s(head).s(nl);
    if note == 3 {
        t.s("    ; 100 EUR").s(nl);
    }
    let mut nums = vec![];
    let mut k = 0;
    for i in 0..3 {
        t.s(" ").s(["Acc:A", "Acc:B", "Acc"][i]);
        if i == e {
            nums.push(None);
            t.s(tail);
        } else {
            let v = [&x, &y][k];
            k += 1;
            t.s("    ");
            write_amount(&mut t, Lay::NumSpSym, v, b"EUR");
            t.s(tail);
            nums.push(Some(v.clone()));
        }
        t.s(nl);
        if note == i {
            t.s("  ; 50 EUR").s(nl);
        }
    }
    if sx::flip() {
        t.s("\n2024-01-01 Next\n  Z  6 EUR\n  Acc:B\n");
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let i = j.xacts.iter().position(|x| x.posts.len() == 3);
    let Some(i) = i else {
        sx::assert(false, "all postings are read");
        return;
    };
    for (p, w) in j.xacts[i].posts.iter().zip(&nums) {
        let Some(a) = &p.amount else {
            sx::assert(false, "every posting has an amount");
            return;
        };
        sx::assert(sym(a) == "EUR", "commodity of a posting");
        match w {
            Some(x) => sx::assert(amt(a).eq(x.v), "a stated amount is kept"),
            None => sx::assert(amt(a).eq(x.v.add(y.v).neg()), "an elided amount is the negated sum of the others"),
        }
    }
    consistent(&j);
    sx::cover("end");
}
/// Costs and plain amounts of the cost's commodity together.
#[no_mangle]
pub fn h_c01_mixed() {
    let q = fixed(["10", "-4", "0", "0.25", "-1"][sx::choose(5)]);
    let (c, y) = (digits(false, 1, 1), digits(sx::flip(), 1, 2));
    let per = sx::flip();
    let lot = sx::choose(3);
    // order of: priced, plain, elided
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][sx::choose(6)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    for k in order {
        match k {
            0 => t.s("  Stock  ").b(&q.t).s(" ABC").s(["", " {3 EUR}", " {3 EUR} [2020-02-02]"][lot]).s(if per { " @ " } else { " @@ " }).b(&c.t).s(" EUR\n"),
            1 => t.s("  Fee  ").b(&y.t).s(" EUR\n"),
            _ => t.s("  Cash\n"),
        };
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 3, "all postings are read");
    let cost = if per { q.v.mul(c.v) } else { c.v };
    for (p, k) in j.xacts[0].posts.iter().zip(order) {
        let (s, v) = [("ABC", q.v), ("EUR", y.v), ("EUR", cost.add(y.v).neg())][k];
        match &p.amount {
            None => sx::assert(false, "every posting has an amount"),
            Some(a) => sx::assert(sym(a) == s && amt(a).eq(v), ["a stated amount is kept", "a stated amount is kept", "an elided amount is the negated sum of the others"][k]),
        }
    }
    consistent(&j);
    sx::cover("end");
}
/// Many postings, one of them elided.
#[no_mangle]
pub fn h_c01_large() {
    let n = sx::param(0, 150) as usize;
    let at = [0, 1, n / 2, n - 1][sx::choose(4)];
    let (x, y) = (digits(false, 1, 1), fixed("12.25"));
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut sum = Dec::zero();
    let mut want = vec![];
    for i in 0..n {
        let v = match i % 50 {
            2 => x.clone(),
            3 => y.clone(),
            k => fixed(["7", "2.5", "13", "0.04"][k % 4]),
        };
        let a = ["A", "A:B", "C", "D:E"][i % 4];
        t.s("  ").s(a);
        if i != at {
            t.s("  ").b(&v.t).s(" EUR");
            sum = sum.add(v.v);
        }
        t.s("\n");
        want.push(Want { account: a.to_string(), amount: v.v, symbol: "EUR".to_string() });
    }
    want[at].amount = sum.neg();
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check_journal(&j, &[want]);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the elided amount.
#[no_mangle]
pub fn h_c01_meet() {
    crate::mix::run(crate::mix::ELIDED, sx::param(0, 2));
}
