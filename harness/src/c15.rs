//! Journals put together from several texts and files.
use crate::{sx, util::*};
use ledger_rs_lib::{account::Account, amount::Amount, journal::Journal, parse_file, parse_text, report};

fn amount_same(a: &Option<Amount>, b: &Option<Amount>, what: &str) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => sx::assert(same(sym(a).as_bytes(), sym(b).as_bytes()) && amt(a).eq(amt(b)), what),
        _ => sx::assert(false, what),
    }
}
/// Do both journals say the same?
pub fn equal(a: &Journal, b: &Journal) {
    sx::assert(a.xacts.len() == b.xacts.len(), "both readings have the same transactions");
    for (x, y) in a.xacts.iter().zip(&b.xacts) {
        sx::assert(x.date == y.date && x.aux_date == y.aux_date, "same dates");
        sx::assert(same(x.payee.as_bytes(), y.payee.as_bytes()), "same payee");
        sx::assert(x.note == y.note, "same note");
        sx::assert(x.posts.len() == y.posts.len(), "same number of postings");
        for (p, q) in x.posts.iter().zip(&y.posts) {
            sx::assert(same(account(p).fullname().as_bytes(), account(q).fullname().as_bytes()), "same account");
            amount_same(&p.amount, &q.amount, "same amount");
            amount_same(&p.cost, &q.cost, "same cost");
            sx::assert(p.note == q.note, "same note of a posting");
        }
    }
    let (t, u) = (tree(a), tree(b));
    sx::assert(t.len() == u.len(), "same accounts");
    for (x, y) in t.iter().zip(&u) {
        sx::assert(x.fullname() == y.fullname() && x.posts.len() == y.posts.len(), "same account tree");
    }
    sx::assert(a.commodity_pool.len() == b.commodity_pool.len(), "same commodities");
}
pub fn totals(a: &Journal, b: &Journal) {
    for (x, y) in tree(a).iter().zip(tree(b)) {
        let mut s = Sums::new();
        for (c, v) in listed(&y.total().amounts) {
            s.add(&c, v);
        }
        check_amounts(&listed(&x.total().amounts), &s, "same totals");
    }
}

/// Parts of a journal; each is a text of whole transactions.
fn part(k: usize, x: &Num) -> T {
    let mut t = T::new();
    match k {
        0 => t.s("2023-01-01 One\n  A:B  ").b(&x.t).s(" EUR\n  C\n"),
        1 => t.s("; comment\n\n2023-02-01=2023-02-03 Two  ; note\n  C  ").b(&x.t).s(" USD\n  A:B:D  -1 USD\n  ; p\n  A\n"),
        2 => t.s("2023-03-01 Three\n  A:B  ").b(&x.t).s(" EUR @ 2 USD\n  E\n"),
        3 => t.s("2023-04-01 Four\n  A  4 EUR\n  F  -").b(&[b'8']).s(" GBP\n"),
        4 => t.s("\n; nothing\n   \n"),
        _ => t.s("2023-05-01\n  Z  ").b(&x.t).s("\n  C\n\n2023-05-02 x\n  Z  $1.50\n  C\n"),
    };
    t
}

/// Texts read one after another are one journal.
#[no_mangle]
pub fn h_c15_texts() {
    let n = sx::param(0, 3) as usize;
    let x = digits(false, 1, 1);
    let mut all = T::new();
    let mut j = Journal::new();
    let mut early: Vec<(String, *const Account)> = vec![];
    for i in 0..n {
        let p = part(sx::choose(6), &x);
        parse_text(p.str(), &mut j);
        if i > 0 {
            all.s("\n");
        }
        all.b(&p.0);
        for (n, a) in &early {
            sx::assert(sx::live(*a) && unsafe { &**a }.fullname() == n, "accounts of earlier texts stay");
        }
        if i == 0 {
            early = tree(&j).iter().skip(1).map(|a| (a.fullname().to_string(), *a as *const Account)).collect();
        }
    }
    let mut k = Journal::new();
    parse_text(all.str(), &mut k);
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// The files of a journal and the text of them.
#[no_mangle]
pub fn h_c15_files() {
    let n = sx::param(0, 2) as usize;
    let x = digits(false, 1, 1);
    let mut j = Journal::new();
    let mut k = Journal::new();
    for i in 0..n {
        let mut p = part(sx::choose(6), &x);
        if sx::flip() {
            // no newline at the end of the file
            while p.0.last() == Some(&b'\n') {
                p.0.pop();
            }
        }
        let name = ["one.ledger", "two.ledger", "three.ledger"][i];
        sx::file(name, p.str());
        parse_file(name, &mut j);
        parse_text(p.str(), &mut k);
    }
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// An included file counts as if its text stood in the place of the directive.
#[no_mangle]
pub fn h_c15_include() {
    let x = digits(false, 1, 1);
    let (a, b, c) = (part(sx::choose(6), &x), part(sx::choose(6), &x), part(sx::choose(6), &x));
    sx::file("sub.ledger", b.str());
    let nested = sx::flip();
    let mut t = T::new();
    let mut u = T::new();
    let nl = ["\n", "\r\n"][sx::choose(2)];
    t.b(&a.0).s("\ninclude ").s(if nested { "mid.ledger" } else { "sub.ledger" }).s(nl).b(&c.0);
    u.b(&a.0).s("\n");
    if nested {
        let mut m = T::new();
        m.s("include sub.ledger\n\n").b(&a.0).s(["", "\n"][sx::choose(2)]);
        sx::file("mid.ledger", m.str());
        u.b(&b.0).s("\n").b(&a.0).s("\n");
    } else {
        u.b(&b.0).s("\n");
    }
    u.b(&c.0);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let mut k = Journal::new();
    parse_text(u.str(), &mut k);
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// Included twice, or with blank lines and comments around it.
#[no_mangle]
pub fn h_c15_again() {
    let x = num(&[(1, 1)]);
    let p = part(sx::choose(sx::param(0, 6)), &x);
    let q = part(sx::choose(sx::param(0, 6)), &x);
    sx::file("p.ledger", p.str());
    sx::file("q.ledger", q.str());
    let name = ["p.ledger", "q.ledger"][sx::choose(2)];
    let mut t = T::new();
    t.s("; start\n").s(["", "\n"][sx::choose(2)]).s("include p.ledger").s(["", " ", "   "][sx::choose(3)]).s("\n").s(["", "\n", "; c\n", "  \n"][sx::choose(4)]).s("include ").sp(sx::choose(3)).s(name).s(["", "\n"][sx::choose(2)]);
    let mut j = Journal::new();
    parse_text(t.str(), &mut j);
    let mut k = Journal::new();
    parse_text(p.str(), &mut k);
    parse_text(if name == "p.ledger" { p.str() } else { q.str() }, &mut k);
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// A file of another size than the reader's buffer.
#[no_mangle]
pub fn h_c15_big() {
    let pad = sx::param(0, 8192) as usize;
    let x = digits(false, 1, 1);
    // the border of the buffer falls on any place of the transaction
    let at = sx::choose(sx::param(1, 60));
    let mut t = T::new();
    t.s("; ");
    while t.0.len() + at + 1 < pad {
        t.s("x");
    }
    t.s("\n");
    t.s("2023-01-01 Ünï\n  A:ß  ").b(&x.t).s(" €\n  C\n\n2023-05-02 x\n  Z  $1.50\n  C\n");
    sx::file("big.ledger", t.str());
    let mut j = Journal::new();
    parse_file("big.ledger", &mut j);
    let w = |a: &str, v: Dec, s: &str| Want { account: a.to_string(), amount: v, symbol: s.to_string() };
    let h = fixed("1.50").v;
    check_journal(&j, &[vec![w("A:ß", x.v, "€"), w("C", x.v.neg(), "€")], vec![w("Z", h, "$"), w("C", h.neg(), "$")]]);
    sx::assert(j.xacts[0].payee == "Ünï", "payee");
    consistent(&j);
    sx::cover("end");
}
/// A file that is not there is refused.
#[no_mangle]
pub fn h_c15_missing() {
    let mut j = Journal::new();
    let n = ["missing.ledger", "", "no/such/dir.ledger"][sx::choose(3)];
    let k = sx::flip();
    sx::may_refuse(|| {
        if k {
            parse_file(n, &mut j);
        } else {
            sx::out(&report::balance_report(&j).join("|"));
            ledger_rs_lib::run(vec!["b".to_string(), "-f".to_string(), n.to_string()]);
        }
    });
    sx::assert(false, "a missing file is not read as an empty one");
}

/// Where the included file lies: beside, in folders, with or without a leading dot, absolute.
#[no_mangle]
pub fn h_c15_path() {
    let x = digits(false, 1, 1);
    let (a, b) = (part(0, &x), part(sx::choose(6), &x));
    // the named file, and files of similar names that must not be read instead
    let forms: [(&str, &str); 12] = [
        ("sub.ledger", "sub.ledger"),
        ("dir/sub.ledger", "dir/sub.ledger"),
        ("dir/deep/sub.ledger", "dir/deep/sub.ledger"),
        ("./sub.ledger", "sub.ledger"),
        ("dir/../sub.ledger", "sub.ledger"),
        ("dir/sub", "dir/sub"),
        ("sub.LEDGER", "sub.LEDGER"),
        ("dir/./sub.ledger", "dir/sub.ledger"),
        ("my sub.ledger", "my sub.ledger"),
        ("my dir/sub.ledger", "my dir/sub.ledger"),
        ("sub  sub.ledger", "sub  sub.ledger"),
        ("sub \u{e4} 1", "sub \u{e4} 1"),
    ];
    let f = forms[sx::choose(12)];
    let other = part(3, &x);
    for n in ["sub.ledger", "dir/sub.ledger", "dir/deep/sub.ledger", "sub", "dir/sub", "sub.LEDGER", "my", "my sub.ledger", "my dir/sub.ledger", "sub  sub.ledger", "sub sub.ledger", "sub \u{e4} 1", "sub \u{e4}"] {
        sx::file(n, if n == f.1 { b.str() } else { other.str() });
    }
    // the directive in a text, in a file, or in a file in the folder
    let how = sx::choose(3);
    let mut t = T::new();
    t.s("include ").s(f.0).s("\n").b(&a.0);
    let mut j = Journal::new();
    match how {
        0 => parse_text(t.str(), &mut j),
        _ => {
            let n = ["main.ledger", "dir/main.ledger"][how - 1];
            sx::file(n, t.str());
            parse_file(n, &mut j);
        }
    }
    let mut k = Journal::new();
    parse_text(b.str(), &mut k);
    parse_text(a.str(), &mut k);
    equal(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// Line ends of files and of what includes them.
#[no_mangle]
pub fn h_c15_lines() {
    let x = digits(false, 1, 1);
    let dos = |t: &T, on: bool| {
        let mut r = T::new();
        for c in &t.0 {
            if on && *c == b'\n' {
                r.b(b"\r");
            }
            r.b(&[*c]);
        }
        r
    };
    let (a, b) = (part(sx::choose(6), &x), part(sx::choose(6), &x));
    sx::file("sub.ledger", dos(&b, sx::flip()).str());
    let mut t = T::new();
    t.b(&a.0).s("\ninclude sub.ledger\n\n").b(&a.0);
    sx::file("main.ledger", dos(&t, sx::flip()).str());
    let mut j = Journal::new();
    parse_file("main.ledger", &mut j);
    let mut k = Journal::new();
    for p in [&a, &b, &a] {
        parse_text(p.str(), &mut k);
    }
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// An included file that is not there is refused.
#[no_mangle]
pub fn h_c15_lost() {
    let x = digits(false, 1, 1);
    sx::file("sub.ledger", part(0, &x).str());
    sx::file("dir/other.ledger", "include sub2.ledger\n");
    let n = ["missing.ledger", "no/such.ledger", "sub", "SUB.ledger", "/no/such.ledger", "dir/other.ledger", "dir/sub.ledger", "sub.ledger x", "x sub.ledger", ""][sx::choose(10)];
    let mut t = T::new();
    t.b(&part(sx::choose(2), &x).0).s("\ninclude ").s(n).s("\n").b(&part(1, &x).0);
    let mut j = Journal::new();
    sx::may_refuse(|| parse_text(t.str(), &mut j));
    sx::assert(false, "a missing file is not left out silently");
}

/// A source that hands out its bytes in portions, with interruptions.
struct Portions<'a> {
    data: &'a [u8],
    sizes: Vec<usize>,
    turn: usize,
    stop: bool,
}
impl<'a> std::io::Read for Portions<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.stop && self.turn % 3 == 1 {
            self.turn += 1;
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = self.sizes[self.turn % self.sizes.len()].min(self.data.len()).min(buf.len());
        self.turn += 1;
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// The portions in which a source hands out its bytes make no difference.
#[no_mangle]
pub fn h_c15_portions() {
    let x = digits(false, 1, 1);
    let mut t = T::new();
    t.b(&part(sx::choose(6), &x).0).s("\n").b(&part([1, 5][sx::choose(2)], &x).0);
    if sx::flip() {
        t.s("\n2023-07-01 Ünï\n  Ä:ß  2 €\n  日本");
    }
    let k = sx::choose(sx::param(0, 8));
    let sizes = match k {
        0 => vec![1],
        1 => vec![2],
        2 => vec![3, 1],
        3 => vec![7],
        4 => vec![16, 1],
        5 => vec![13, 64],
        6 => vec![31],
        _ => vec![64, 5, 1],
    };
    let mut a = Journal::new();
    let mut b = Journal::new();
    let n = a.read(Portions { data: &t.0, sizes, turn: 0, stop: sx::flip() });
    parse_text(t.str(), &mut b);
    sx::assert(n == a.xacts.len(), "the number of transactions is told");
    equal(&a, &b);
    totals(&a, &b);
    consistent(&a);
    sx::cover("end");
}
/// Reading on tells the number of all transactions so far.
#[no_mangle]
pub fn h_c15_count() {
    let n = sx::param(0, 3) as usize;
    let counts = [1, 1, 1, 1, 0, 2];
    let x = digits(false, 1, 1);
    let mut j = Journal::new();
    let mut sum = 0;
    for _ in 0..n {
        let k = sx::choose(6);
        sum += counts[k];
        let p = part(k, &x);
        sx::assert(j.read(&p.0[..]) == sum, "the number of transactions is told");
        sx::assert(j.xacts.len() == sum, "transactions add up");
    }
    consistent(&j);
    sx::cover("end");
}
/// A source that breaks off.
struct Broken<'a> {
    data: &'a [u8],
    size: usize,
}
impl<'a> std::io::Read for Broken<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() {
            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof));
        }
        let n = self.size.min(self.data.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// A source that breaks off, or that is not text, is refused.
#[no_mangle]
pub fn h_c15_broken() {
    let x = digits(false, 1, 1);
    let mut t = T::new();
    t.s("; c\n").b(&part(1, &x).0).s("\n").b(&part(0, &x).0);
    let at = sx::choose(t.0.len() as u64 + 1);
    let mut j = Journal::new();
    let how = sx::choose(2);
    sx::may_refuse(|| {
        if how == 0 {
            j.read(Broken { data: &t.0[..at], size: 16 });
        } else {
            let mut b = t.0[..at].to_vec();
            // no byte beyond ASCII stands alone
            let high: Vec<u8> = (128..=255).collect();
            b.push(sx::byte(&high));
            b.extend_from_slice(&t.0[at..]);
            j.read(&b[..]);
        }
    });
    sx::assert(false, "a source that cannot be read in full is refused");
}
/// Includes nested many levels deep, before and after transactions of their own.
#[no_mangle]
pub fn h_c15_deep() {
    let n = sx::param(0, 20) as usize;
    let x = digits(false, 1, 1);
    let first = sx::flip();
    let mut whole = T::new();
    let mut tails = vec![];
    for i in 0..n {
        let p = part([0, 3, 1][i % 3], &x);
        let mut t = T::new();
        if !first {
            t.b(&p.0).s("\n");
            whole.b(&p.0).s("\n");
        }
        if i + 1 < n {
            t.s("include ").s(&format!("f{}.ledger", i + 1)).s("\n");
        }
        if first {
            t.s("\n").b(&p.0);
            tails.push(p);
        }
        sx::file(&format!("f{}.ledger", i), t.str());
    }
    for p in tails.iter().rev() {
        whole.b(&p.0).s("\n");
    }
    let mut j = Journal::new();
    parse_file("f0.ledger", &mut j);
    let mut k = Journal::new();
    parse_text(whole.str(), &mut k);
    equal(&j, &k);
    totals(&j, &k);
    consistent(&j);
    sx::cover("end");
}
/// Large files and texts of many transactions; every one counts.
#[no_mangle]
pub fn h_c15_large() {
    let n = sx::param(0, 70000) as usize;
    let x = digits(false, 1, 0);
    let mut t = T::new();
    let mut k = 0;
    let pad = "; ".to_string() + &"comment ".repeat(60);
    while t.0.len() < n {
        t.s(&pad).s("\n2023-01-01 P\n  A  ").b(if k % 2 == 0 { &x.t } else { b"7" }).s(" EUR\n  B\n\n");
        k += 1;
    }
    let mut j = Journal::new();
    let how = sx::choose(3);
    match how {
        0 => parse_text(t.str(), &mut j),
        1 => {
            sx::file("large.ledger", t.str());
            parse_file("large.ledger", &mut j);
        }
        _ => {
            sx::file("large.ledger", t.str());
            parse_text("include large.ledger\n", &mut j);
        }
    }
    sx::assert(j.xacts.len() == k, "every transaction of a large text is read");
    let want = x.v.mul(Dec::int(((k + 1) / 2) as i128)).add(Dec::int(7 * (k / 2) as i128));
    let a = j.find_account("A").unwrap();
    sx::assert(a.posts.len() == k && amt(&a.total().amounts[0]).eq(want), "every posting of a large text counts");
    sx::cover("end");
}
/// Whatever features meet in a transaction: the content by whatever way it is read.
#[no_mangle]
pub fn h_c15_meet() {
    crate::mix::run(crate::mix::COUNT | crate::mix::STATED, sx::param(0, 2));
}
