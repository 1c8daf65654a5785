//! Notes.
use crate::{sx, util::*};
use ledger_rs_lib::{journal::Journal, parse_text};

fn note(t: &Option<String>, want: &Option<Vec<u8>>, what: &str) {
    match (t, want) {
        (None, None) => {}
        (Some(a), Some(b)) => sx::assert(same(a.as_bytes(), b), what),
        _ => sx::assert(false, what),
    }
}
/// A note line after the header or after any of the postings, with any text.
#[no_mangle]
pub fn h_c14_place() {
    let (n, len) = (sx::param(0, 3) as usize, sx::param(1, 3) as usize);
    // at most one note for each element
    let mut want: Vec<Option<Vec<u8>>> = vec![];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let set = &text_but(b"")[..];
    let mut add = |t: &mut T, i: usize| {
        if !sx::flip() {
            return None;
        }
        let mut v = vec![sx::byte(&but(b""))];
        v.extend(if i == 0 { word(len, set) } else { word(1, set) });
        v.push(sx::byte(&but(b"")));
        t.sp([1, 4][i % 2]).s(";").sp([0, 1, 2][i % 3]).b(&v).s(["", " "][i % 2]).s("\n");
        Some(v)
    };
    want.push(add(&mut t, 0));
    for i in 0..n {
        t.s("  Acc:").b(&[b'A' + i as u8]);
        if i + 1 < n {
            t.s("  ").b(&[b'1' + i as u8]).s(" EUR");
        }
        t.s("\n");
        want.push(add(&mut t, i + 1));
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == n, "a note is not a posting");
    let x = &j.xacts[0];
    note(&x.note, &want[0], "note of the transaction");
    for i in 0..n {
        note(&x.posts[i].note, &want[i + 1], "note of a posting");
        sx::assert(account(&x.posts[i]).name.as_bytes() == &[b'A' + i as u8], "account of a posting");
    }
    sx::assert(amt(x.posts[n - 1].amount.as_ref().unwrap()).eq(Dec::int(-((n * (n - 1) / 2) as i128))), "notes do not change amounts");
    consistent(&j);
    sx::cover("end");
}
/// Notes in several transactions stay where they belong.
#[no_mangle]
pub fn h_c14_many() {
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    let mut want: Vec<[Option<Vec<u8>>; 3]> = vec![];
    for i in 0..n {
        let mut w = [None, None, None];
        let c = sx::byte(LOWER);
        let text = |k: usize| vec![b'n', c, b'0' + (i * 3 + k) as u8, b'x'];
        t.s("2023-04-21 Payee");
        match sx::choose(3) {
            0 => {}
            1 => {
                w[0] = Some(text(0));
                t.s("  ; ").b(&text(0));
            }
            _ => {
                w[0] = Some(text(0));
                t.s("\n    ; ").b(&text(0));
            }
        }
        t.s("\n  A  1 EUR\n");
        if sx::flip() {
            w[1] = Some(text(1));
            t.s("  ; ").b(&text(1)).s("\n");
        }
        t.s("  B\n");
        if sx::flip() {
            w[2] = Some(text(2));
            t.s("  ;").b(&text(2)).s(if i + 1 == n && sx::flip() { "" } else { "\n" });
        }
        if i + 1 < n {
            t.s("\n");
        }
        want.push(w);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == n, "number of transactions");
    for i in 0..n {
        let x = &j.xacts[i];
        sx::assert(x.posts.len() == 2, "number of postings");
        note(&x.note, &want[i][0], "note of the transaction");
        note(&x.posts[0].note, &want[i][1], "note of the first posting");
        note(&x.posts[1].note, &want[i][2], "note of the second posting");
    }
    consistent(&j);
    sx::cover("end");
}
/// Empty notes and notes in other scripts and line ends.
#[no_mangle]
pub fn h_c14_forms() {
    let forms: [(&str, &str); 9] = [
        ("  ;", ""),
        ("  ;   ", ""),
        (" ; x", "x"),
        ("  ;x  y ", "x  y"),
        ("     ;  Ünï ß", "Ünï ß"),
        ("  ; ; z", "; z"),
        ("  ; key: value", "key: value"),
        ("  ; 10 EUR @ 5", "10 EUR @ 5"),
        ("  ; 日本", "日本"),
    ];
    let nl = ["\n", "\r\n"][sx::choose(2)];
    let (f, g) = (forms[sx::choose(9)], forms[sx::choose(9)]);
    let x = digits(sx::flip(), 1, 1);
    let mut t = T::new();
    t.s("2023-04-21 Payee").s(nl);
    let k = sx::choose(3);
    if k == 0 {
        t.s(f.0).s(nl);
    }
    t.s("  A  ").b(&x.t).s(" EUR").s(nl);
    if k == 1 {
        t.s(f.0).s(nl);
    }
    t.s("  B").s(nl);
    if k == 2 {
        t.s(f.0).s(nl);
    } else {
        t.s(g.0).s(nl);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let o = |s: &str| if s.is_empty() { None } else { Some(s.as_bytes().to_vec()) };
    let b = &j.xacts[0];
    sx::assert(b.posts.len() == 2, "number of postings");
    let mut w = [None, None, o(g.1)];
    w[k] = o(f.1);
    note(&b.note, &w[0], "note of the transaction");
    note(&b.posts[0].note, &w[1], "note of the first posting");
    note(&b.posts[1].note, &w[2], "note of the second posting");
    sx::assert(amt(b.posts[0].amount.as_ref().unwrap()).eq(x.v), "amount of a posting");
    sx::assert(amt(b.posts[1].amount.as_ref().unwrap()).eq(x.v.neg()), "amount of a posting");
    sx::cover("end");
}

/// Notes after postings of any form; an empty note line adds nothing and takes nothing away.
#[no_mangle]
pub fn h_c14_posts() {
    let forms = ["5 EUR", "5 ABC @ 2 EUR", "5 ABC {3 EUR} [2020-01-01] @@ 9 EUR", "$5.00", "-5", "0 EUR"];
    let f = forms[sx::choose(6)];
    let nl = ["\n", "\r\n"][sx::choose(2)];
    let at = sx::choose(3);
    let w = { let mut v = vec![sx::byte(b"az;:@{[-$")]; v.extend(word(1, b"az ;@")); v.push(sx::byte(b"az;.")); v };
    let empty = sx::choose(3);
    let mut t = T::new();
    t.s("2023-04-21 Payee").s(nl);
    for i in 0..3 {
        match i {
            0 => {}
            1 => {
                t.s("  A  ").s(f).s(nl);
            }
            _ => {
                t.s("  B").s(nl);
            }
        }
        if i == at {
            if empty == 1 {
                t.s("  ;").s(nl);
            }
            t.s("    ; ").b(&w).s(nl);
            if empty == 2 {
                t.s("    ;  ").s(nl);
            }
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    // the same without notes
    let mut k = Journal::new();
    let mut u = T::new();
    u.s("2023-04-21 Payee\n  A  ").s(f).s("\n  B\n");
    parse_text(u.str(), &mut k);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == 2, "a note is not a posting");
    let x = &j.xacts[0];
    let o = |i: usize| if i == at { Some(w.clone()) } else { None };
    note(&x.note, &o(0), "note of the transaction");
    note(&x.posts[0].note, &o(1), "note of the first posting");
    note(&x.posts[1].note, &o(2), "note of the second posting");
    for (p, q) in x.posts.iter().zip(&k.xacts[0].posts) {
        for (a, b) in [(&p.amount, &q.amount), (&p.cost, &q.cost)] {
            match (a, b) {
                (None, None) => {}
                (Some(a), Some(b)) => sx::assert(sym(a) == sym(b) && amt(a).eq(amt(b)), "notes do not change amounts"),
                _ => sx::assert(false, "notes do not change amounts"),
            }
        }
        sx::assert(account(p).fullname() == account(q).fullname(), "notes do not change accounts");
    }
    sx::assert(tree(&j).len() == tree(&k).len() && j.commodity_pool.len() == k.commodity_pool.len(), "notes add nothing");
    consistent(&j);
    sx::cover("end");
}

/// Notes on any of many postings, equal accounts and equal texts among them.
#[no_mangle]
pub fn h_c14_wide() {
    let n = sx::param(0, 5) as usize;
    let same_text = sx::flip();
    let c = sx::byte(LOWER);
    let mut want = vec![];
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    for i in 0..=n {
        if i > 0 {
            t.s(["  Acc:A", "  Acc:B"][i % 2]);
            if i < n {
                t.s("  ").b(&[b'1' + i as u8]).s(" EUR");
            }
            t.s("\n");
        }
        if sx::flip() {
            let v = vec![b'n', c, if same_text { b'0' } else { b'0' + i as u8 }];
            t.s("   ; ").b(&v).s("\n");
            want.push(Some(v));
        } else {
            want.push(None);
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    sx::assert(j.xacts.len() == 1 && j.xacts[0].posts.len() == n, "a note is not a posting");
    let x = &j.xacts[0];
    note(&x.note, &want[0], "note of the transaction");
    for i in 0..n {
        note(&x.posts[i].note, &want[i + 1], "note of a posting");
    }
    sx::cover("end");
}
/// Long notes.
#[no_mangle]
pub fn h_c14_long() {
    let n = sx::param(0, 600) as usize;
    let set = but(b"");
    let at = sx::choose(3);
    let v = long(n, &set);
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    for i in 0..3 {
        if i == at {
            t.s("  ; ").b(&v).s("\n");
        }
        if i < 2 {
            t.s(["  A  1 EUR\n", "  B\n"][i]);
        }
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let x = &j.xacts[0];
    for (i, got) in [&x.note, &x.posts[0].note, &x.posts[1].note].into_iter().enumerate() {
        note(got, &if i == at { Some(v.clone()) } else { None }, "a long note");
    }
    sx::assert(x.posts.len() == 2, "a note is not a posting");
    sx::cover("end");
}
/// Notes on many postings and transactions.
#[no_mangle]
pub fn h_c14_large() {
    let n = sx::param(0, 100) as usize;
    let w = word(3, &but(b""));
    let step = 1 + sx::choose(3);
    let mut t = T::new();
    let mut want = vec![];
    for i in 0..n {
        if i % 30 == 0 {
            t.s("\n2023-04-21 Payee\n");
        }
        t.s("  Acc  1 EUR\n");
        want.push(if i % step == 0 {
            let v = [&[b'a' + (i % 26) as u8], &w[..]].concat();
            t.s("    ; ").b(&v).s("\n");
            Some(v)
        } else {
            None
        });
    }
    let mut j = Journal::new();
    // one posting alone is no transaction
    if n % 30 == 1 {
        t.s("  B\n");
        want.push(None);
    }
    parse_text(t.str(), &mut j);
    let all = j.all_posts();
    sx::assert(all.len() == want.len(), "notes are not postings");
    for (p, w) in all.iter().zip(&want) {
        note(&p.note, w, "note of a posting");
    }
    for x in &j.xacts {
        sx::assert(x.note.is_none(), "no note of a transaction");
    }
    sx::cover("end");
}
/// Whatever features meet in a transaction: the notes.
#[no_mangle]
pub fn h_c14_meet() {
    crate::mix::run(crate::mix::NOTES, sx::param(0, 2));
}
