//! Transactions built through the API.
use crate::{c15::{equal, totals}, c06::price, sx, util::*};
use ledger_rs_lib::{
    amount::{Amount, Quantity},
    journal::Journal,
    parse_text, parser,
    post::Post,
    xact::{finalize, Xact},
};

fn q(n: &Num) -> Quantity {
    Quantity::from_str(utf8(&n.t)).unwrap()
}
/// A posting as it is given to the API and as it is written.
struct P {
    account: &'static str,
    amount: Option<(Num, &'static str)>,
    cost: Option<(Num, &'static str)>,
    note: Option<&'static str>,
}
fn write(t: &mut T, ps: &[P]) {
    for p in ps {
        t.s("  ").s(p.account);
        if let Some((n, s)) = &p.amount {
            t.s("  ").b(&n.t);
            if !s.is_empty() {
                t.s(" ").s(s);
            }
        }
        if let Some((n, s)) = &p.cost {
            t.s(" @@ ").b(&n.t).s(" ").s(s);
        }
        t.s("\n");
        if let Some(n) = p.note {
            t.s("  ; ").s(n).s("\n");
        }
    }
}
fn make(j: &mut Journal, a: &Option<(Num, &'static str)>) -> Option<Amount> {
    a.as_ref().map(|(n, s)| Amount::new(q(n), Some(j.commodity_pool.find_or_create(s, None))))
}
/// Builds the transaction; its postings are added before or after it joins the journal.
fn build(j: &mut Journal, x: Xact, ps: &[P], before: bool) {
    let mut x = x;
    let mut posts = vec![];
    for p in ps {
        let a = j.register_account(p.account).unwrap();
        let (m, c) = (make(j, &p.amount), make(j, &p.cost));
        posts.push(Post::new(a, std::ptr::null(), m, c, p.note));
    }
    if before {
        for p in posts {
            x.add_post(p);
        }
        j.add_xact(x);
    } else {
        j.add_xact(x);
        for p in posts {
            j.xacts.last_mut().unwrap().add_post(p);
        }
    }
    let x = j.xacts.last().unwrap() as *const Xact;
    finalize(x, j);
    sx::assert(j.xacts.last().unwrap().posts.len() == ps.len(), "each posting is added once");
}
fn check(j: &Journal, k: &Journal) {
    equal(j, k);
    consistent(j);
    totals(j, k);
    for (s, r) in [("ABC", "EUR"), ("EUR", "ABC"), ("EUR", "USD"), ("USD", "EUR")] {
        match (price(j, s, r), price(k, s, r)) {
            (None, None) => {}
            (Some(x), Some(y)) => sx::assert(x.0 == y.0 && amt(&x.1).eq(amt(&y.1)), "same prices"),
            _ => sx::assert(false, "same prices"),
        }
    }
}
fn posts(kind: usize, x: Num) -> Vec<P> {
    let p = |account, amount, cost| P { account, amount, cost, note: None };
    match kind {
        0 => vec![p("A:B", Some((x, "EUR")), None), p("C", None, None)],
        1 => vec![p("C", None, None), p("A", Some((x, "EUR")), None), p("A:B", Some((fixed("-1.5"), "EUR")), None)],
        2 => vec![p("A", Some((fixed("4"), "ABC")), Some((x, "EUR"))), p("D", None, None)],
        3 => vec![p("A", Some((x, "EUR")), None), p("D", Some((fixed("-9"), "EUR")), None)],
        4 => vec![p("A", Some((fixed("2"), "EUR")), None), p("A:B", Some((x, "USD")), None)],
        5 => vec![p("A", Some((x, "")), None), p("A", None, None)],
        7 => {
            let mut ps = vec![p("A", Some((x.clone(), "EUR")), None), p("A", Some((x.clone(), "EUR")), None), p("A", Some((fixed("2"), "EUR")), None), p("B", None, None), p("B", Some((negated(&x), "EUR")), None)];
            for i in [0, 1, 3] {
                ps[i].note = Some(["n", "n", "", "a b"][i]);
            }
            ps
        }
        _ => vec![
            p("A", Some((fixed("2"), "ABC")), Some((x, "EUR"))),
            p("B", Some((fixed("3"), "EUR")), None),
            p("A", Some((fixed("-1"), "ABC")), Some((fixed("1"), "EUR"))),
            p("E:F:G", Some((fixed("0"), "EUR")), None),
            p("B", None, None),
        ],
    }
}
/// One transaction after another, built or read.
#[no_mangle]
pub fn h_c22_build() {
    let n = sx::param(0, 2) as usize;
    let mut t = T::new();
    let mut j = Journal::new();
    for i in 0..n {
        let kind = sx::choose(8);
        let x = digits(i == 1, 1, (i == 0) as usize);
        if kind == 4 || kind == 2 {
            sx::assume(!x.v.is_zero());
        }
        let ps = posts(kind, x);
        let d = ["2023-01-02", "2022-01-03", "2024-02-29"][i % 3];
        let mut own = T::new();
        own.s(d).s(" Payee").s("\n");
        write(&mut own, &ps);
        t.b(&own.0).s("\n");
        match sx::choose(3) {
            0 => parse_text(own.str(), &mut j),
            k => build(&mut j, Xact::create(d, "", "Payee", ""), &ps, k == 1),
        }
    }
    let mut k = Journal::new();
    parse_text(t.str(), &mut k);
    check(&j, &k);
    sx::cover("end");
}
/// Many transactions built; those before them stay right.
#[no_mangle]
pub fn h_c22_many() {
    let n = 1 + sx::choose(sx::param(0, 9));
    let x = digits(false, 1, 0);
    let before = sx::flip();
    let all = sx::flip();
    let mut t = T::new();
    let mut j = Journal::new();
    for i in 0..n {
        let ps = posts([0, 1, 6, 3, 7][i % 5], x.clone());
        let mut own = T::new();
        own.s("2023-01-02 Payee\n");
        write(&mut own, &ps);
        t.b(&own.0).s("\n");
        if all || i % 2 == 0 {
            build(&mut j, Xact::create("2023-01-02", "", "Payee", ""), &ps, before);
        } else {
            parse_text(own.str(), &mut j);
        }
    }
    let mut k = Journal::new();
    parse_text(t.str(), &mut k);
    check(&j, &k);
    sx::cover("end");
}
/// The parts of a header, given to the API.
#[no_mangle]
pub fn h_c22_header() {
    let dates = ["2023-04-21", "2024-02-29", "1999-12-31"];
    let (d, a) = (dates[sx::choose(3)], ["", "2023-05-01", "2023-04-21"][sx::choose(3)]);
    let (pw, nw) = (word(2, b"azAZ09 ;:=-"), word(2, b"azAZ09 ;:=-"));
    let (pay, note) = (if sx::flip() { utf8(&pw) } else { "" }, if sx::flip() { utf8(&nw) } else { "" });
    let x = Xact::create(d, a, pay, note);
    let day = |s: &str| if s.is_empty() { None } else { Some(parser::parse_datetime(s).unwrap().date()) };
    sx::assert(x.date == day(d) && x.aux_date == day(a), "dates of a transaction");
    sx::assert(if pay.is_empty() { x.payee == "Unknown Payee" } else { same(x.payee.as_bytes(), pay.as_bytes()) }, "payee of a transaction");
    match &x.note {
        None => sx::assert(note.is_empty(), "note of a transaction"),
        Some(n) => sx::assert(!note.is_empty() && same(n.as_bytes(), note.as_bytes()), "note of a transaction"),
    }
    sx::assert(x.posts.is_empty(), "a new transaction has no postings");
    let mut x = Xact::new(day(d), pay, None);
    sx::assert(x.date == day(d) && x.aux_date.is_none() && x.note.is_none() && x.posts.is_empty(), "parts of a transaction");
    sx::assert(same(x.payee.as_bytes(), pay.as_bytes()), "payee of a transaction");
    x.add_note(utf8(&nw));
    sx::assert(same(x.note.as_ref().unwrap().as_bytes(), &nw), "note of a transaction");
    sx::cover("end");
}
/// Postings given to the API keep their parts and their order.
#[no_mangle]
pub fn h_c22_posts() {
    let n = 1 + sx::choose(sx::param(0, 6));
    let mut j = Journal::new();
    let w = word(2, b"azAZ09 ;:=-");
    let v = digits(sx::flip(), 1, 1);
    let c = j.commodity_pool.find_or_create("EUR", None);
    let mut x = Xact::create("2023-01-01", "", "P", "");
    for i in 0..n {
        let a = j.register_account(["A", "A:B", "C"][i % 3]).unwrap();
        let m = if i == 1 { None } else { Some(Amount::new(if i == 0 { q(&v) } else { (i as i32).into() }, Some(c))) };
        let mut p = Post::new(a, std::ptr::null(), m, if i == 2 { Some(Amount::new(q(&v), Some(c))) } else { None }, if i == 3 { Some(utf8(&w)) } else { None });
        if i == 4 {
            p.add_note(utf8(&w));
        }
        let r = x.add_post(p);
        sx::assert(r.account == a, "the posting that was added");
    }
    sx::assert(x.posts.len() == n, "each posting is added once");
    let at = &x as *const Xact;
    for (i, p) in x.posts.iter().enumerate() {
        sx::assert(p.xact_ptr == at, "a posting refers to its transaction");
        sx::assert(account(p).fullname() == ["A", "A:B", "C"][i % 3], "account of a posting");
        match &p.amount {
            None => sx::assert(i == 1, "amount of a posting"),
            Some(a) => sx::assert(i != 1 && sym(a) == "EUR" && amt(a).eq(if i == 0 { v.v } else { Dec::int(i as i128) }), "amount of a posting"),
        }
        sx::assert(p.cost.is_some() == (i == 2) && (i != 2 || amt(p.cost.as_ref().unwrap()).eq(v.v)), "cost of a posting");
        match &p.note {
            None => sx::assert(i != 3 && i != 4, "note of a posting"),
            Some(s) => sx::assert((i == 3 || i == 4) && same(s.as_bytes(), &w), "note of a posting"),
        }
    }
    // in the journal, with others before and after
    j.add_xact(Xact::create("2023-01-01", "", "Q", ""));
    j.add_xact(x);
    for _ in 0..sx::choose(5) {
        j.add_xact(Xact::create("2023-01-01", "", "R", ""));
    }
    let x = &j.xacts[1];
    sx::assert(x.payee == "P" && x.posts.len() == n, "transactions keep their order");
    for p in &x.posts {
        sx::assert(p.xact_ptr == x as *const Xact, "a posting refers to its transaction");
    }
    sx::assert(j.all_posts().len() == n, "the postings of a journal");
    for (p, r) in j.all_posts().iter().zip(&x.posts) {
        sx::assert(*p as *const Post == r as *const Post, "the postings of a journal");
    }
    sx::cover("end");
}
/// Amounts given as parts are those given as text.
#[no_mangle]
pub fn h_c22_parts() {
    let n = num(&[(1, 0), (2, 2), (0, 1)]);
    let s = word(2, b"aAb$");
    let bare = sx::flip();
    let mut j = Journal::new();
    let lay = LAYS[sx::choose(4)];
    let mut t = T::new();
    write_amount(&mut t, if bare { Lay::Bare } else { lay }, &n, &s);
    let first = sx::flip();
    let mut a = None;
    if first {
        a = parser::parse_amount(t.str(), &mut j);
    }
    let b = parser::parse_amount_parts(utf8(&n.t), if bare { "" } else { utf8(&s) }, &mut j);
    if !first {
        a = parser::parse_amount(t.str(), &mut j);
    }
    let (Some(a), Some(b)) = (a, b) else {
        sx::assert(false, "both amounts are read");
        return;
    };
    sx::assert(amt(&a).eq(n.v) && amt(&b).eq(n.v), "quantity of both");
    sx::assert(a == b, "both amounts are equal");
    let p = |a: &Amount| a.get_commodity().map_or(std::ptr::null(), |c| c as *const ledger_rs_lib::commodity::Commodity);
    sx::assert(p(&a) == p(&b) && p(&a).is_null() == bare, "both amounts have the same commodity");
    sx::assert(j.commodity_pool.len() == !bare as usize, "each commodity counts once");
    sx::cover("end");
}
/// Whatever features meet in a transaction built by calls: everything.
#[no_mangle]
pub fn h_c22_meet() {
    use crate::mix::*;
    run(CALLS | HEADER | STATED | ELIDED | COSTS | PRICES | NOTES | TOTALS | REFS | COUNT, sx::param(0, 2));
}
