//! The account tree.
use crate::{sx, util::*};
use ledger_rs_lib::{account::Account, journal::Journal, parse_text};

/// A name of 1..=max segments of n symbolic characters.
fn name(max: usize, n: usize, set: &[u8]) -> Vec<u8> {
    let k = 1 + sx::choose(max as u64);
    let mut v = vec![];
    for i in 0..k {
        if i > 0 {
            v.push(b':');
        }
        v.extend(word(n, set));
    }
    v
}
fn split(n: &[u8]) -> Vec<Vec<u8>> {
    n.split(|c| *c == b':').map(|s| s.to_vec()).collect()
}
/// Full names that the registered names stand for (their own and their parents'), each once.
struct Names(Vec<Vec<u8>>);
impl Names {
    fn has(&self, n: &[u8]) -> bool {
        let mut r = false;
        for x in &self.0 {
            r |= same(x, n);
        }
        r
    }
    fn add(&mut self, n: &[u8]) {
        let mut k = 0;
        while k <= n.len() {
            if k == n.len() || n[k] == b':' {
                if !self.has(&n[..k]) {
                    self.0.push(n[..k].to_vec());
                }
            }
            k += 1;
        }
    }
}
fn check_tree(j: &Journal, want: &Names) {
    let all = tree(j);
    sx::assert(all.len() == want.0.len() + 1, "the tree holds the names registered and their parents, each once");
    sx::assert(all[0].fullname().is_empty(), "the root has no name");
    let mut i = 0;
    for a in &all[1..] {
        sx::assert(want.has(a.fullname().as_bytes()), "an account has the name it was registered with");
        let segs = split(a.fullname().as_bytes());
        sx::assert(same(a.name.as_bytes(), &segs[segs.len() - 1]), "an account's own name is the last segment");
        i += 1;
        // in tree order: below the one before, or after it
        if i > 1 {
            let p = split(all[i - 1].fullname().as_bytes());
            sx::assert(p < segs, "the tree is listed in order of names, parents first");
        }
    }
}
fn find<'a>(j: &'a Journal, n: &[u8]) -> Option<&'a Account> {
    j.find_account(utf8(n))
}

/// Any sequence of registrations: one account for each name, all of them reachable.
#[no_mangle]
pub fn h_c10_register() {
    let (n, depth) = (sx::param(0, 3) as usize, sx::param(1, 3) as usize);
    let mut j = Journal::new();
    let mut done: Vec<(Vec<u8>, *const Account)> = vec![];
    let mut want = Names(vec![]);
    for _ in 0..n {
        let v = name(depth, 1, b"ab");
        let Some(p) = j.register_account(utf8(&v)) else {
            sx::assert(false, "an account is registered");
            return;
        };
        for (w, q) in &done {
            sx::assert(same(w, &v) == (p == *q), "accounts are the same exactly when their names are");
        }
        want.add(&v);
        done.push((v, p));
    }
    for (v, p) in &done {
        sx::assert(sx::live(*p), "a registered account stays valid");
        sx::assert(same(unsafe { &**p }.fullname().as_bytes(), v), "full name of an account");
        match find(&j, v) {
            None => sx::assert(false, "a registered account is found"),
            Some(a) => sx::assert(a as *const Account == *p, "the account found is the one registered"),
        }
    }
    check_tree(&j, &want);
    sx::cover("end");
}
/// Lookups: found exactly when the account is there, and the tree stays as it is.
#[no_mangle]
pub fn h_c10_lookup() {
    let (n, depth) = (sx::param(0, 2) as usize, sx::param(1, 3) as usize);
    let mut j = Journal::new();
    let mut want = Names(vec![]);
    for _ in 0..n {
        let v = name(depth, 1, b"ab");
        j.register_account(utf8(&v));
        want.add(&v);
    }
    let v = name(depth, 1, b"abc");
    let before = tree(&j).len();
    match find(&j, &v) {
        Some(a) => {
            sx::assert(want.has(&v), "only registered accounts are found");
            sx::assert(same(a.fullname().as_bytes(), &v), "the account found has the name asked for");
            sx::cover("found");
        }
        None => {
            sx::assert(!want.has(&v), "registered accounts are found");
            sx::cover("not found");
        }
    }
    // relative to an account of the tree
    if let Some(k) = v.iter().position(|c| *c == b':') {
        if let Some(a) = find(&j, &v[..k]) {
            match a.find_account(utf8(&v[k + 1..])) {
                Some(b) => sx::assert(same(b.fullname().as_bytes(), &v) && want.has(&v), "an account found below another"),
                None => sx::assert(!want.has(&v), "registered accounts are found below their parent"),
            }
            sx::cover("below");
        }
    }
    sx::assert(tree(&j).len() == before, "looking up an account does not add one");
    check_tree(&j, &want);
    sx::cover("end");
}
/// Names of any characters, differing in any way.
#[no_mangle]
pub fn h_c10_chars() {
    let set = &text_but(b":")[..];
    let ends = but(b":");
    let m = sx::param(0, 2) as usize;
    let seg = |first: bool| {
        let mut v = vec![sx::byte(if first { &ends[..] } else { b"aZ0" })];
        v.extend(word(m - 1, set));
        v.push(b'x');
        v
    };
    let mut a = seg(true);
    let tail: &[u8] = [&b""[..], b":Child"][sx::choose(2)];
    a.extend_from_slice(tail);
    let mut b = seg(true);
    b.extend_from_slice([&b""[..], b":Child"][sx::choose(2)]);
    let mut j = Journal::new();
    let (p, q) = (j.register_account(utf8(&a)).unwrap(), j.register_account(utf8(&b)).unwrap());
    sx::assert((p == q) == same(&a, &b), "accounts are the same exactly when their names are");
    unsafe {
        sx::assert(same((*p).fullname().as_bytes(), &a), "full name of an account");
        sx::assert(same((*q).fullname().as_bytes(), &b), "full name of an account");
    }
    let mut want = Names(vec![]);
    want.add(&a);
    want.add(&b);
    check_tree(&j, &want);
    sx::cover("end");
}
/// Deep and wide trees built from a text.
#[no_mangle]
pub fn h_c10_text() {
    let names = ["A", "A:B", "A:B:C", "A:B:C:D:E:F", "AB", "AB:C", "a:b", "B:A", "Ünï:ß", "Ünï", "A:B c:D"];
    let n = sx::param(0, 3) as usize;
    let mut t = T::new();
    t.s("2023-04-21 Payee\n");
    let mut want = Names(vec![]);
    let mut used = vec![];
    for i in 0..n {
        let a = names[sx::choose(names.len() as u64)];
        t.s("  ").s(a);
        if i + 1 < n {
            t.s("  ").b(&[b'1' + i as u8]).s(" EUR");
        }
        t.s("\n");
        want.add(a.as_bytes());
        used.push(a);
    }
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    check_tree(&j, &want);
    for (p, a) in j.xacts[0].posts.iter().zip(&used) {
        sx::assert(account(p).fullname() == *a, "a posting is on the account it names");
        sx::assert(find(&j, a.as_bytes()).map(|x| x as *const Account) == Some(p.account), "the account found is the one posted to");
    }
    let q = names[sx::choose(names.len() as u64)];
    let before = tree(&j).len();
    sx::assert(find(&j, q.as_bytes()).is_some() == want.has(q.as_bytes()), "found exactly when named");
    sx::assert(tree(&j).len() == before, "looking up an account does not add one");
    consistent(&j);
    sx::cover("end");
}
/// Many children of one account, then names looked up again.
#[no_mangle]
pub fn h_c10_many() {
    let n = sx::param(0, 20) as usize;
    let mut j = Journal::new();
    let mut ptrs = vec![];
    let mut want = Names(vec![]);
    for i in 0..n {
        let v = [b'T', b'0' + (i % 3) as u8, b':', b'c', b'a' + i as u8];
        let v = &v[..if i % 7 == 3 { 2 } else { 5 }];
        ptrs.push((v.to_vec(), j.register_account(utf8(v)).unwrap()));
        want.add(v);
    }
    for (v, p) in &ptrs {
        sx::assert(sx::live(*p) && unsafe { &**p }.fullname().as_bytes() == &v[..], "accounts stay valid as the tree grows");
    }
    check_tree(&j, &want);
    let q = [b'T', sx::byte(b"0123"), b':', b'c', sx::byte(b"abcdefghijklmnopqrstuvwxyz")];
    let p = find(&j, &q).map(|a| a as *const Account);
    let mut w = None;
    for (v, x) in &ptrs {
        if same(v, &q) {
            w = Some(*x);
        }
    }
    sx::assert(p == w, "found exactly when registered");
    sx::assert(tree(&j).len() == want.0.len() + 1, "looking up an account does not add one");
    sx::cover("end");
}

/// Names of letters, blanks and colons in any places, without empty segments.
#[no_mangle]
pub fn h_c10_shapes() {
    let n = sx::param(0, 4) as usize;
    let mut j = Journal::new();
    let mut want = Names(vec![]);
    let mut done: Vec<(Vec<u8>, *const Account)> = vec![];
    for i in 0..2 {
        let k = 1 + sx::choose((n - i) as u64);
        let mut v = vec![sx::byte(b"aB")];
        v.extend(word(k - 1, b"aB :"));
        // no empty segments
        sx::assume(v[k - 1] != b':');
        for i in 1..k {
            sx::assume(!(v[i] == b':' && v[i - 1] == b':'));
        }
        let p = j.register_account(utf8(&v)).unwrap();
        for (w, q) in &done {
            sx::assert(same(w, &v) == (p == *q), "accounts are the same exactly when their names are");
        }
        want.add(&v);
        done.push((v, p));
    }
    for (v, p) in &done {
        sx::assert(sx::live(*p), "a registered account stays valid");
        sx::assert(same(unsafe { &**p }.fullname().as_bytes(), v), "full name of an account");
        sx::assert(find(&j, v).map(|a| a as *const Account) == Some(*p), "the account found is the one registered");
    }
    check_tree(&j, &want);
    sx::cover("end");
}
/// Long names, deep trees.
#[no_mangle]
pub fn h_c10_long() {
    let n = sx::param(0, 300) as usize;
    let m = [1, 2, 5, 40][sx::choose(4)];
    let mut a = vec![];
    for i in 0..m {
        if i > 0 {
            a.push(b':');
        }
        a.extend(if i == 0 || i + 1 == m { long(if m < 5 { n } else { n / 5 }, b"xyzXYZ .") } else { vec![b'a' + (i % 26) as u8; 1 + i % 3] });
    }
    // no blanks at the ends of the name
    let (f, l) = (a[0], *a.last().unwrap());
    sx::assume(f != b' ' && l != b' ');
    let mut b = a.clone();
    let k = b.len() - 1;
    match sx::choose(3) {
        0 => b[k] = sx::byte(b"xyzXYZ"),
        1 => b.push(sx::byte(b"xyz")),
        _ => {
            b.pop();
        }
    }
    let text = sx::flip();
    let mut j = Journal::new();
    if text {
        let mut t = T::new();
        t.s("2023-01-01 P\n  ").b(&a).s("  1 EUR\n  ").b(&b).s("\n");
        parse_text(t.str(), &mut j);
    } else {
        j.register_account(utf8(&a));
        j.register_account(utf8(&b));
    }
    let (p, q) = (j.register_account(utf8(&a)).unwrap(), j.register_account(utf8(&b)).unwrap());
    sx::assert((p == q) == same(&a, &b), "accounts are the same exactly when their names are");
    unsafe {
        sx::assert(same((*p).fullname().as_bytes(), &a), "full name of an account");
        sx::assert(same((*q).fullname().as_bytes(), &b), "full name of an account");
    }
    sx::assert(j.find_account(utf8(&a)).map(|x| x as *const Account) == Some(p), "an account is found by its name");
    sx::assert(tree(&j).len() == m + 1 + (p != q) as usize, "nothing else is created");
    sx::cover("end");
}
/// Trees of several levels with many children at one of them, the names asked for in any order and at any moment.
#[no_mangle]
pub fn h_c10_asked() {
    let depth = 1 + sx::choose(sx::param(0, 4)) as usize;
    let wide = sx::choose(depth as u64) as usize;
    let n = 1 + sx::choose(sx::param(1, 6)) as usize;
    let moment = sx::choose(3);
    let order = sx::choose(3);
    let first = sx::choose(2);
    let mut j = Journal::new();
    let mut names: Vec<String> = vec![];
    let mut want = Names(vec![]);
    for i in 0..n {
        let mut v = String::new();
        for d in 0..depth {
            if d > 0 {
                v.push(':');
            }
            v.push_str(["Assets", "Bank", "Giro", "Euro", "X"][d]);
            if d == wide {
                v.push((b'a' + i as u8) as char);
            }
        }
        let p = j.register_account(&v).unwrap();
        want.add(v.as_bytes());
        if moment == 0 {
            sx::assert(unsafe { &*p }.fullname() == v, "an account has the name it was registered with");
        }
        if moment == 1 && i == n / 2 {
            for a in tree(&j) {
                a.fullname();
            }
        }
        names.push(v);
    }
    // the names of all accounts, from the top, from below, or one of the middle first
    let mut all: Vec<String> = want.0.iter().map(|v| utf8(v).to_string()).collect();
    all.sort_by_key(|v| v.matches(':').count());
    if order == 1 {
        all.reverse();
    }
    if order == 2 {
        let k = all.len() * (1 + first) / 3;
        all.rotate_left(k);
    }
    for v in &all {
        match j.find_account(v) {
            None => sx::assert(false, "found when registered"),
            Some(a) => sx::assert(a.fullname() == v, "an account has the name it was registered with"),
        }
    }
    check_tree(&j, &want);
    sx::cover("end");
}
