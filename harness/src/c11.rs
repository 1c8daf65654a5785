//! References stay valid while the journal grows.
use crate::{book, c06::day, sx, util::*};
use ledger_rs_lib::{
    account::Account,
    amount::{Amount, Quantity},
    commodity::Commodity,
    journal::Journal,
    parse_text,
};

/// Every reference handed out, with what it stood for.
struct Refs {
    accounts: Vec<(String, *const Account)>,
    commodities: Vec<(String, *const Commodity)>,
}
impl Refs {
    fn new() -> Refs {
        Refs { accounts: vec![], commodities: vec![] }
    }
    fn account(&mut self, n: &str, p: *const Account) {
        self.accounts.push((n.to_string(), p));
    }
    fn commodity(&mut self, n: &str, p: *const Commodity) {
        self.commodities.push((n.to_string(), p));
    }
    fn check(&self, j: &Journal) {
        for (n, p) in &self.accounts {
            sx::assert(sx::live(*p), "an account reference stays valid");
            sx::assert(unsafe { &**p }.fullname() == n, "an account reference leads to the same account");
            sx::assert(j.find_account(n).map(|a| a as *const Account) == Some(*p), "an account stays where it was");
        }
        for (n, p) in &self.commodities {
            sx::assert(sx::live(*p), "a commodity reference stays valid");
            sx::assert(unsafe { &**p }.symbol == *n, "a commodity reference leads to the same commodity");
            sx::assert(j.commodity_pool.find(n).map(|a| a as *const Commodity) == Some(*p), "a commodity stays where it was");
        }
    }
}
fn xact(t: &mut T, names: &[(&str, Option<(&Num, &str)>)]) {
    t.s("2023-04-21 Payee\n");
    for (a, m) in names {
        t.s("  ").s(a);
        if let Some((n, s)) = m {
            t.s("  ").b(&n.t).s(" ").s(s);
        }
        t.s("\n");
    }
    t.s("\n");
}
fn collect(j: &Journal, r: &mut Refs) {
    for a in tree(j) {
        if !r.accounts.iter().any(|x| x.1 == a as *const Account) {
            r.account(a.fullname(), a);
        }
    }
    r.accounts.retain(|x| !x.0.is_empty());
    for p in j.all_posts() {
        if let Some(c) = p.amount.as_ref().and_then(|a| a.get_commodity()) {
            if !r.commodities.iter().any(|x| x.1 == c as *const Commodity) {
                r.commodity(&c.symbol, c);
            }
        }
    }
}

/// Transactions added one text after another: all references of all of them hold after each.
#[no_mangle]
pub fn h_c11_grow() {
    let n = sx::param(0, 9) as usize;
    let accs = ["A", "A:B", "A:B:C", "B", "B:A", "C", "D:E", "D:F", "D", "E:1", "E:2", "E:3", "E:4", "F", "G", "H:I:J"];
    let syms = ["EUR", "USD", "GBP", "CHF", "AUD", "NOK", "SEK"];
    let mut j = Journal::new();
    let mut refs = Refs::new();
    let mut sums: Vec<(String, Sums)> = vec![];
    let step = [1, 3, 5][sx::choose(3)];
    for i in 0..n {
        let (a, b, s) = (accs[i * step % accs.len()], accs[(i * 7 + 2) % accs.len()], syms[i % syms.len()]);
        let x = digits(i % 2 == 1, 1, i % 2);
        let mut t = T::new();
        xact(&mut t, &[(a, Some((&x, s))), (b, None)]);
        parse_text(t.str(), &mut j);
        for (n, v) in [(a, x.v), (b, x.v.neg())] {
            match sums.iter_mut().find(|e| e.0 == n) {
                Some(e) => e.1.add(s, v),
                None => {
                    let mut q = Sums::new();
                    q.add(s, v);
                    sums.push((n.to_string(), q));
                }
            }
        }
        refs.check(&j);
        consistent(&j);
        collect(&j, &mut refs);
    }
    for (a, s) in &sums {
        check_amounts(&listed(&j.find_account(a).unwrap().amount().amounts), s, "balance of an account");
    }
    sx::cover("end");
}
/// One text of many transactions, different numbers of postings.
#[no_mangle]
pub fn h_c11_text() {
    let n = sx::param(0, 10) as usize;
    let accs = ["A", "A:B", "C:D", "C", "E:F:G", "H", "I:J", "K", "L:M", "N", "O:P"];
    let mut t = T::new();
    let mut want = vec![];
    for i in 0..n {
        let k = if i == 2 { 2 + sx::choose(8) } else { 2 + (i * 3) % 5 };
        t.s("2023-04-21 Payee\n");
        let mut w = vec![];
        let mut sum = Dec::zero();
        for p in 0..k {
            let a = accs[(i * 4 + p * 3) % accs.len()];
            t.s("  ").s(a);
            if p + 1 < k {
                let x = if p == 0 { digits(false, 1, 1) } else { fixed("2.5") };
                t.s("  ").b(&x.t).s(" EUR");
                sum = sum.add(x.v);
                w.push(Want { account: a.to_string(), amount: x.v, symbol: "EUR".to_string() });
            } else {
                w.push(Want { account: a.to_string(), amount: sum.neg(), symbol: "EUR".to_string() });
            }
            t.s("\n");
        }
        t.s("\n");
        want.push(w);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check_journal(&j, &want);
    consistent(&j);
    sx::cover("end");
}
/// Any sequence of operations on the journal.
#[no_mangle]
pub fn h_c11_ops() {
    let n = sx::param(0, 4) as usize;
    let accs = ["A", "A:B", "C:D:E", "C"];
    let syms = ["EUR", "USD", "GBP"];
    let mut j = Journal::new();
    let mut refs = Refs::new();
    for i in 0..n {
        match sx::choose(6) {
            0 => {
                let a = accs[sx::choose(4)];
                let p = j.register_account(a).unwrap();
                refs.account(a, p);
            }
            1 => {
                let s = syms[sx::choose(3)];
                let p = j.commodity_pool.find_or_create(s, None);
                refs.commodity(s, p);
            }
            2 => {
                let s = syms[sx::choose(2)];
                let p = j.commodity_pool.create(s, None);
                refs.commodity(s, p);
            }
            3 => {
                let mut t = T::new();
                let x = digits(false, 1, 0);
                let k = sx::choose(3);
                xact(&mut t, &[(accs[k], Some((&x, syms[k]))), (accs[k + 1], None)]);
                parse_text(t.str(), &mut j);
            }
            4 => {
                let mut t = T::new();
                let (x, y) = (fixed("2"), fixed("-4"));
                xact(&mut t, &[("C:D:E", Some((&x, syms[i % 3]))), ("N", Some((&y, "GBP")))]);
                parse_text(t.str(), &mut j);
            }
            _ => {
                let (a, b) = (j.commodity_pool.find_or_create("EUR", None), j.commodity_pool.find_or_create("USD", None));
                j.commodity_pool.add_price(a, day(2023, 1, 1 + i as u32), Amount::new(Quantity::from(2), Some(b)));
                refs.commodity("EUR", a);
                refs.commodity("USD", b);
            }
        }
        refs.check(&j);
        consistent(&j);
        collect(&j, &mut refs);
    }
    refs.check(&j);
    sx::cover("end");
}
/// The journal itself moves.
#[no_mangle]
pub fn h_c11_move() {
    fn make(x: &Num) -> Journal {
        let mut j = Journal::new();
        let mut t = T::new();
        xact(&mut t, &[("A:B", Some((x, "EUR"))), ("C", None)]);
        parse_text(t.str(), &mut j);
        j
    }
    let n = sx::param(0, 3) as usize;
    let x = num(&[(2, 0), (1, 1)]);
    let mut all = vec![];
    for _ in 0..n {
        all.push(make(&x));
    }
    let mut j = Box::new(all.swap_remove(sx::choose(n as u64)));
    consistent(&j);
    let mut t = T::new();
    xact(&mut t, &[("A:B", Some((&x, "USD"))), ("D", None)]);
    parse_text(t.str(), &mut j);
    consistent(&j);
    for k in &all {
        consistent(k);
    }
    let w = |a: &str, v: Dec, s: &str| Want { account: a.to_string(), amount: v, symbol: s.to_string() };
    check_journal(&j, &[vec![w("A:B", x.v, "EUR"), w("C", x.v.neg(), "EUR")], vec![w("A:B", x.v, "USD"), w("D", x.v.neg(), "USD")]]);
    sx::cover("end");
}
/// Postings linked to accounts and prices that exist already, as the tree and the pool fill up.
#[no_mangle]
pub fn h_c11_fill() {
    let (na, nc) = (sx::param(0, 15) as usize, sx::param(1, 15) as usize);
    let mut j = Journal::new();
    let mut refs = Refs::new();
    let x = digits(false, 1, 1);
    let mut t = T::new();
    xact(&mut t, &[("R:A", Some((&x, "EUR"))), ("S", None)]);
    parse_text(t.str(), &mut j);
    collect(&j, &mut refs);
    let (fa, fc) = (sx::choose(na as u64 + 1), sx::choose(nc as u64 + 1));
    for i in 0..fa {
        let v = format!("R:{}", (b'a' + i as u8) as char);
        let p = j.register_account(&v).unwrap();
        refs.account(&v, p);
    }
    for i in 0..fc {
        let v = format!("Q{}", (b'a' + i as u8) as char);
        let p = j.commodity_pool.find_or_create(&v, None);
        refs.commodity(&v, p);
    }
    refs.check(&j);
    consistent(&j);
    let mut s = Sums::new();
    s.add("EUR", x.v);
    check_amounts(&listed(&j.find_account("R").unwrap().total().amounts), &s, "balance of an account");
    sx::cover("end");
}
/// Any transactions read one text after another, with everything checked after each.
#[no_mangle]
pub fn h_c11_varied() {
    let n = sx::param(0, 3) as usize;
    let whole = sx::flip();
    let turn = sx::choose(2);
    let mut j = Journal::new();
    let mut refs = Refs::new();
    let mut es = vec![];
    let mut t = T::new();
    for i in 0..n {
        es.push(book::entry(&mut t, sx::choose(book::KINDS), i * 3 + turn));
        if !whole {
            parse_text(t.str(), &mut j);
            t = T::new();
            refs.check(&j);
            book::check(&j, &es);
            collect(&j, &mut refs);
        }
    }
    parse_text(t.str(), &mut j);
    refs.check(&j);
    book::check(&j, &es);
    sx::cover("end");
}
/// References after many transactions, accounts and commodities.
#[no_mangle]
pub fn h_c11_large() {
    let n = sx::param(0, 120) as usize;
    let x = digits(false, 1, 0);
    let way = sx::choose(3);
    let mut j = Journal::new();
    let mut t = T::new();
    let mut early: Vec<(String, *const Account, String, *const Commodity)> = vec![];
    for i in 0..n {
        let l = ((b'a' + (i % 26) as u8) as char).to_string();
        let (a, s) = (format!("A:{}:{}", ["x", "y"][i % 2], l.repeat(1 + i / 26)), format!("S{}", l.repeat(1 + (i / 26) % 3)));
        let mut one = T::new();
        one.s("2023-01-01 P\n  ").s(&a).s("  ").b(&x.t).s(" ").s(&s).s("\n  C\n\n");
        match way {
            0 => {
                t.b(&one.0);
            }
            1 => parse_text(one.str(), &mut j),
            _ => {
                j = { j };
                parse_text(one.str(), &mut j);
            }
        }
        if way > 0 && i % 10 == 0 {
            early.push((a.clone(), j.find_account(&a).unwrap(), s.clone(), j.commodity_pool.find(&s).unwrap()));
        }
    }
    if way == 0 {
        parse_text(t.str(), &mut j);
    }
    sx::assert(j.xacts.len() == n, "every transaction");
    for (a, p, s, c) in &early {
        sx::assert(sx::live(*p) && unsafe { (**p).fullname() } == a && j.find_account(a).map(|x| x as *const Account) == Some(*p), "accounts stay valid");
        sx::assert(sx::live(*c) && unsafe { &(**c).symbol } == s && j.commodity_pool.find(s).map(|x| x as *const Commodity) == Some(*c), "commodities stay valid");
    }
    consistent(&j);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the references.
#[no_mangle]
pub fn h_c11_meet() {
    crate::mix::run(crate::mix::REFS, sx::param(0, 2));
}
