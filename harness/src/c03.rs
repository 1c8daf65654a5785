//! Posting lines.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text};

const TAILS: [&str; 8] = ["", "  ", "  ; note", " ; 5 USD", " ", "   ;x @ 3", "\t", "\t\t; note"];

fn run(line: &T, acc: &[u8], v: Dec, symbol: &[u8]) {
    let mut t = T::new();
    t.s("2023-04-21 Payee\n").b(&line.0).s("\n  Other:Side\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 2, "both postings are read");
    let p = &j.xacts[0].posts[0];
    sx::assert(same(account(p).fullname().as_bytes(), acc), "account of the posting");
    let Some(a) = &p.amount else {
        sx::assert(false, "the amount is read");
        return;
    };
    sx::assert(p.cost.is_none(), "no cost is made up");
    sx::assert(same(sym(a).as_bytes(), symbol), "commodity symbol");
    sx::assert(amt(a).eq(v), "quantity");
    sx::assert(same(account(&j.xacts[0].posts[1]).fullname().as_bytes(), b"Other:Side"), "account of the other posting");
    consistent(&j);
    sx::cover("end");
}

/// All layouts of an amount with symbolic digits.
#[no_mangle]
pub fn h_c03_layout() {
    let lay = LAYS[sx::choose(5)];
    let symbol = if lay == Lay::Bare { "" } else { ["EUR", "$", "€", "kWh"][sx::choose(4)] };
    let n = num(&[(1, 0), (4, 0), (2, 2), (0, 2), (1, 5)]);
    let mut t = T::new();
    let ind = [1, 4][sx::choose(2)];
    let sep = [2, 3, 9][sx::choose(3)];
    t.sp(ind).s("Assets:Cash").sp(sep);
    write_amount(&mut t, lay, &n, symbol.as_bytes());
    t.s(TAILS[sx::choose(TAILS.len() as u64)]);
    run(&t, b"Assets:Cash", n.v, symbol.as_bytes());
}
/// Any account name.
#[no_mangle]
pub fn h_c03_account() {
    let first = &but(b";:")[..];
    let mut mid = text_but(b"");
    mid.push(b'\t');
    let control: Vec<u8> = (1..9).chain(14..32).chain([127]).collect();
    mid.extend_from_slice(&control);
    let mid = &mid[..];
    let n = sx::param(0, 3) as usize;
    let mut a = vec![sx::byte(first)];
    a.extend(word(n, mid));
    let mut last = but(b":");
    last.extend_from_slice(&control);
    a.push(sx::byte(&last));
    // the separator of account and amount is two spaces; segments are not empty
    for i in 0..a.len() - 1 {
        sx::assume(!(a[i] == b' ' && a[i + 1] == b' '));
        sx::assume(!(a[i] == b':' && a[i + 1] == b':'));
    }
    let mut t = T::new();
    t.s("  ").b(&a).s("  ");
    let n = digits(sx::flip(), 2, 0);
    let lay = [Lay::NumSpSym, Lay::SymNum][sx::choose(2)];
    write_amount(&mut t, lay, &n, b"EUR");
    run(&t, &a, n.v, b"EUR");
}
/// Any account in UTF-8.
#[no_mangle]
pub fn h_c03_utf8() {
    let accs = ["Ünïcode:Straße", "资产:现金", "Active:Cont curent", "Расходы:Еда", "💰:🍞 x", "A\u{a0}B:C", "Ä:É È"];
    let a = accs[sx::choose(accs.len() as u64)];
    let symbol = ["€", "£", "¥", "kr", "лв", "฿"][sx::choose(6)];
    let lay = LAYS[sx::choose(4)];
    let n = num(&[(2, 0), (1, 2)]);
    let mut t = T::new();
    t.s("    ").s(a).s("  ");
    write_amount(&mut t, lay, &n, symbol.as_bytes());
    t.s(TAILS[sx::choose(3)]);
    run(&t, a.as_bytes(), n.v, symbol.as_bytes());
}
/// Any commodity symbol.
#[no_mangle]
pub fn h_c03_symbol() {
    let set = &but(b"0123456789-.,;@{}[]()\"")[..];
    let n = 1 + sx::choose(sx::param(0, 4));
    let s = word(n, set);
    let lay = LAYS[sx::choose(4)];
    let v = num(&[(2, 0), (1, 2), (0, 1)]);
    let mut t = T::new();
    t.s("    Assets:Cash  ");
    write_amount(&mut t, lay, &v, &s);
    t.s(TAILS[[0, 3][sx::choose(2)]]);
    run(&t, b"Assets:Cash", v.v, &s);
}
/// Lot price and lot date change neither the amount nor the commodity.
#[no_mangle]
pub fn h_c03_lot() {
    let lay = LAYS[sx::choose(4)];
    let n = num(&[(2, 0), (1, 1)]);
    let mut t = T::new();
    t.s("  Assets:Stock  ");
    write_amount(&mut t, lay, &n, b"VEUR");
    let gap = if lay == Lay::NumSym || lay == Lay::NumSpSym { ["", " ", "  "][sx::choose(3)] } else { [" ", "  "][sx::choose(2)] };
    t.s(gap);
    let (p, d) = (digits(false, 2, 0), [b'0', b'0' + 1 + sx::choose(9) as u8]);
    let k = sx::choose(4);
    if k == 0 || k == 2 {
        t.s("{").b(&p.t).s(" EUR}");
    }
    if k == 2 {
        t.s(" ");
    }
    if k > 0 {
        t.s("[2023-").b(&d).s("-11]");
    }
    if k == 3 {
        t.s(" {EUR ").b(&p.t).s("}");
    }
    t.s(TAILS[sx::choose(3)]);
    run(&t, b"Assets:Stock", n.v, b"VEUR");
}
/// A posting without an amount: whatever follows the account is not an amount.
#[no_mangle]
pub fn h_c03_elided() {
    let tails = ["", " ", "  ", "     ", "  ; note", "    ;10 USD", "  ;"];
    let mut t = T::new();
    let a = [&b"Assets:Cash"[..], "Ü:ß x".as_bytes(), b"A"][sx::choose(3)];
    let first = sx::flip();
    let n = num(&[(2, 0), (0, 2)]);
    let el = tails[sx::choose(tails.len() as u64)];
    t.s("2023-04-21 Payee\n");
    if first {
        t.s(" ").b(a).s(el).s("\n  Other  ").b(&n.t).s(" EUR\n");
    } else {
        t.s(" Other  ").b(&n.t).s(" EUR\n   ").b(a).s(el).s(["\n", ""][sx::choose(2)]);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let w = |acc: &[u8], v: Dec| Want { account: utf8(acc).to_string(), amount: v, symbol: "EUR".to_string() };
    let mut want = vec![w(a, n.v.neg()), w(b"Other", n.v)];
    if !first {
        want.reverse();
    }
    check_journal(&j, &[want]);
    sx::cover("end");
}
/// Any account name on a line of its own: nothing of it is taken for an amount.
#[no_mangle]
pub fn h_c03_alone() {
    let first = &but(b";:")[..];
    let mut mid = text_but(b"");
    mid.push(b'\t');
    let control: Vec<u8> = (1..9).chain(14..32).chain([127]).collect();
    mid.extend_from_slice(&control);
    let mid = &mid[..];
    let n = sx::param(0, 3) as usize;
    let mut a = vec![sx::byte(first)];
    a.extend(word(n, mid));
    let mut last = but(b":");
    last.extend_from_slice(&control);
    a.push(sx::byte(&last));
    for i in 0..a.len() - 1 {
        sx::assume(!(a[i] == b' ' && a[i + 1] == b' '));
        sx::assume(!(a[i] == b':' && a[i + 1] == b':'));
    }
    let v = digits(sx::flip(), 1, 0);
    let tail = ["", " ", "    ", "  ; note"][sx::choose(4)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  Other  ").b(&v.t).s(" EUR\n    ").b(&a).s(tail).s(["\n", "", "\r\n"][sx::choose(3)]);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 2, "both postings are read");
    let p = &j.xacts[0].posts[1];
    sx::assert(same(account(p).fullname().as_bytes(), &a), "account of the posting");
    sx::assert(p.cost.is_none(), "no cost is made up");
    match &p.amount {
        None => sx::assert(false, "every posting has an amount"),
        Some(m) => sx::assert(sym(m) == "EUR" && amt(m).eq(v.v.neg()), "the amount is the balance of the others"),
    }
    sx::cover("end");
}
/// Characters of other scripts, whatever class they are of, in account names and symbols.
#[no_mangle]
pub fn h_c03_classes() {
    // letters, numbers that are not digits, marks, signs, punctuation, private use, digits of other scripts
    let cs = ["²", "½", "①", "٣", "Ⅷ", "৪", "₹", "元", "Ǆ", "\u{301}", "«", "—", "…", "！", "：", "；", "＠", "\u{e000}", "🜚", "𝟙", "ß", "İ", "§", "°", "µ"];
    let c = cs[sx::choose(cs.len() as u64)];
    let at = sx::choose(3);
    let mut w = T::new();
    w.s(["", "m", "Ab"][at]).s(c).s(["x", "", "c"][at]);
    let v = num(&[(2, 0), (1, 1)]);
    let lay = LAYS[sx::choose(4)];
    let mut t = T::new();
    if sx::flip() {
        t.s("    Assets:").b(&w.0).s("  ");
        write_amount(&mut t, lay, &v, b"EUR");
        let a = ["Assets:".as_bytes(), &w.0].concat();
        run(&t, &a, v.v, b"EUR");
    } else {
        t.s("    Assets:Cash  ");
        write_amount(&mut t, lay, &v, &w.0);
        t.s(TAILS[sx::choose(3)]);
        run(&t, b"Assets:Cash", v.v, &w.0);
    }
}

/// Letters of two to four bytes with any last byte, at the ends of account names and symbols.
#[no_mangle]
pub fn h_c03_bytes() {
    let w = match sx::choose(3) {
        0 => vec![0xc4, sx::range(0x80, 0xbf) as u8],
        1 => vec![0xe5, sx::range(0x80, 0xbf) as u8, sx::range(0x80, 0xbf) as u8],
        _ => vec![0xf0, 0x9f, 0x92, sx::range(0x80, 0xbf) as u8],
    };
    let v = num(&[(1, 0), (1, 1)]);
    let lay = LAYS[sx::choose(4)];
    let (mut a, mut s) = (b"Acc".to_vec(), b"EUR".to_vec());
    match sx::choose(4) {
        0 => a.extend(&w),
        1 => a = [&w[..], b"x"].concat(),
        2 => s.extend(&w),
        _ => s = [&w[..], b"x"].concat(),
    }
    let mut t = T::new();
    t.s("    ").b(&a).s("  ");
    write_amount(&mut t, lay, &v, &s);
    run(&t, &a, v.v, &s);
}
/// Long accounts, symbols, gaps and what follows.
#[no_mangle]
pub fn h_c03_long() {
    let n = sx::param(0, 400) as usize;
    let place = sx::choose(6);
    let a = if place == 0 { long(n, b"xyzXYZ.-1") } else { b"Acc".to_vec() };
    let s = if place == 1 { long(n, b"xyzXYZ_.") } else { b"EUR".to_vec() };
    sx::assume(s[0] != b'.');
    let v = digits(false, 2, 1);
    let mut t = T::new();
    t.s("2023-01-01 P\n").sp(if place == 2 { n } else { 2 }).b(&a).sp(if place == 3 { n } else { 2 });
    let lay = LAYS[sx::choose(4)];
    // a symbol that ends with a point before a number is another one
    sx::assume(lay != Lay::SymNum || *s.last().unwrap() != b'.');
    write_amount(&mut t, lay, &v, &s);
    match place {
        4 => {
            t.s("  ; ").b(&long(n, b"xyz"));
        }
        5 => {
            t.sp(n);
        }
        _ => {}
    }
    t.s("\n  Other\n");
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let w = |a: &[u8], v: Dec| Want { account: utf8(a).to_string(), amount: v, symbol: utf8(&s).to_string() };
    check_journal(&j, &[vec![w(&a, v.v), w(b"Other", v.v.neg())]]);
    sx::cover("end");
}
/// Whatever features meet in a transaction: the postings.
#[no_mangle]
pub fn h_c03_meet() {
    crate::mix::run(crate::mix::STATED, sx::param(0, 2));
}
/// A number that ends in its point is refused or read as that number, of the symbol written.
#[no_mangle]
pub fn h_c03_point() {
    let lay = LAYS[sx::choose(5)];
    let symbol = if lay == Lay::Bare { "" } else { ["EUR", "$", "€"][sx::choose(3)] };
    let mut n = digits(sx::flip(), 1 + sx::choose(2), 0);
    n.t.push(b'.');
    let tail = ["", "  ", "  ; note"][sx::choose(3)];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n  A  ");
    write_amount(&mut t, lay, &n, symbol.as_bytes());
    t.s(tail).s("\n  B\n");
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    let w = |a: &str, v: Dec| Want { account: a.to_string(), amount: v, symbol: symbol.to_string() };
    check_journal(&j, &[vec![w("A", n.v), w("B", n.v.neg())]]);
    sx::cover("end");
}
