//! Input generators and the independent reading of results.
use crate::sx;
use ledger_rs_lib::{
    account::Account,
    amount::{Amount, Quantity},
    journal::Journal,
    post::Post,
};
use rust_decimal::Decimal;

/// A decimal number m / 10^s, the oracle's arithmetic.
#[derive(Clone, Copy)]
pub struct Dec {
    pub m: i128,
    pub s: u32,
}
pub fn p10(n: u32) -> i128 {
    let mut r = 1i128;
    let mut i = 0;
    while i < n {
        r *= 10;
        i += 1;
    }
    r
}
impl Dec {
    pub fn int(m: i128) -> Dec {
        Dec { m, s: 0 }
    }
    pub fn zero() -> Dec {
        Dec { m: 0, s: 0 }
    }
    pub fn scaled(&self, s: u32) -> i128 {
        self.m.wrapping_mul(p10(s - self.s))
    }
    pub fn add(self, o: Dec) -> Dec {
        let s = if self.s > o.s { self.s } else { o.s };
        Dec { m: self.scaled(s).wrapping_add(o.scaled(s)), s }
    }
    pub fn neg(self) -> Dec {
        Dec { m: self.m.wrapping_neg(), s: self.s }
    }
    pub fn sub(self, o: Dec) -> Dec {
        self.add(o.neg())
    }
    pub fn mul(self, o: Dec) -> Dec {
        Dec { m: self.m.wrapping_mul(o.m), s: self.s + o.s }
    }
    pub fn eq(self, o: Dec) -> bool {
        let s = if self.s > o.s { self.s } else { o.s };
        self.scaled(s) == o.scaled(s)
    }
    pub fn is_zero(self) -> bool {
        self.m == 0
    }
}

/// Does Quantity hold exactly a Decimal? (decided on a known value; otherwise its text is read)
fn raw_ok() -> bool {
    if std::mem::size_of::<Quantity>() != std::mem::size_of::<Decimal>() {
        return false;
    }
    let q = Quantity::from(-7654321);
    let d: Decimal = unsafe { std::mem::transmute_copy(&q) };
    d.mantissa() == -7654321 && d.scale() == 0
}
/// The exact value of a quantity.
pub fn val(q: &Quantity) -> Dec {
    if raw_ok() {
        let d: Decimal = unsafe { std::mem::transmute_copy(q) };
        Dec { m: d.mantissa(), s: sx::conc(d.scale() as u64) as u32 }
    } else {
        let t = q.to_string();
        match read_num(t.as_bytes()) {
            Some((d, n)) if n == t.len() => d,
            _ => panic!("unreadable quantity"),
        }
    }
}
/// Reads [-]ddd[.ddd] at the start of the bytes; returns the value and the length.
pub fn read_num(b: &[u8]) -> Option<(Dec, usize)> {
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && b[i] == b'-' {
        neg = true;
        i += 1;
    }
    let mut m: i128 = 0;
    let mut n = 0;
    let mut s = 0;
    let mut dot = false;
    while i < b.len() {
        let c = b[i];
        if c >= b'0' && c <= b'9' {
            m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
            n += 1;
            if dot {
                s += 1;
            }
        } else if c == b'.' && !dot {
            dot = true;
        } else {
            break;
        }
        i += 1;
    }
    if n == 0 {
        return None;
    }
    Some((Dec { m: if neg { m.wrapping_neg() } else { m }, s }, i))
}
pub fn amt(a: &Amount) -> Dec {
    val(&a.quantity)
}
pub fn sym(a: &Amount) -> &str {
    match a.get_commodity() {
        Some(c) => &c.symbol,
        None => "",
    }
}

/// Text under construction.
#[derive(Clone)]
pub struct T(pub Vec<u8>);
impl T {
    pub fn new() -> T {
        T(Vec::with_capacity(256))
    }
    pub fn s(&mut self, s: &str) -> &mut T {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(&mut self, b: &[u8]) -> &mut T {
        self.0.extend_from_slice(b);
        self
    }
    pub fn sp(&mut self, n: usize) -> &mut T {
        let mut i = 0;
        while i < n {
            self.0.push(b' ');
            i += 1;
        }
        self
    }
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.0) }
    }
}

/// A number as written, and its value.
#[derive(Clone)]
pub struct Num {
    pub t: Vec<u8>,
    pub v: Dec,
}
/// ni integer digits and nf fraction digits, all of them symbolic.
pub fn digits(neg: bool, ni: usize, nf: usize) -> Num {
    let mut t = Vec::with_capacity(40);
    let mut m: i128 = 0;
    if neg {
        t.push(b'-');
    }
    let mut i = 0;
    while i < ni + nf {
        if i == ni {
            t.push(b'.');
        }
        let d = sx::digit();
        t.push(d);
        m = m.wrapping_mul(10).wrapping_add((d - b'0') as i128);
        i += 1;
    }
    Num { t, v: Dec { m: if neg { m.wrapping_neg() } else { m }, s: nf as u32 } }
}
/// A number known to the path.
pub fn fixed(text: &str) -> Num {
    let (v, n) = read_num(text.as_bytes()).unwrap();
    assert!(n == text.len());
    Num { t: text.as_bytes().to_vec(), v }
}
/// One of the listed shapes (integer digits, fraction digits), either sign.
pub fn num(shapes: &[(usize, usize)]) -> Num {
    let neg = sx::flip();
    let (ni, nf) = shapes[sx::choose(shapes.len() as u64)];
    digits(neg, ni, nf)
}
/// n symbolic bytes out of the set
pub fn word(n: usize, set: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    let mut i = 0;
    while i < n {
        v.push(sx::byte(set));
        i += 1;
    }
    v
}
/// Printable characters, blanks apart, but some.
pub fn but(some: &[u8]) -> Vec<u8> {
    (0x21..0x7f).filter(|c| !some.contains(c)).collect()
}
/// Printable characters and the blank, but some.
pub fn text_but(some: &[u8]) -> Vec<u8> {
    (0x20..0x7f).filter(|c| !some.contains(c)).collect()
}
pub fn utf8(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// How an amount is written.
#[derive(Clone, Copy, PartialEq)]
pub enum Lay {
    NumSym,      // 10EUR
    NumSpSym,    // 10 EUR
    SymNum,      // EUR10
    SymSpNum,    // EUR 10
    Bare,        // 10
}
pub const LAYS: [Lay; 5] = [Lay::NumSpSym, Lay::NumSym, Lay::SymNum, Lay::SymSpNum, Lay::Bare];
pub fn write_amount(t: &mut T, l: Lay, n: &Num, sym: &[u8]) {
    match l {
        Lay::NumSym => t.b(&n.t).b(sym),
        Lay::NumSpSym => t.b(&n.t).s(" ").b(sym),
        Lay::SymNum => t.b(sym).b(&n.t),
        Lay::SymSpNum => t.b(sym).s(" ").b(&n.t),
        Lay::Bare => t.b(&n.t),
    };
}

pub fn account<'a>(p: &'a Post) -> &'a Account {
    sx::assert(sx::live(p.account), "a posting's account is valid");
    unsafe { &*p.account }
}

/// Full name, found by walking the tree from the top.
pub fn tree(j: &Journal) -> Vec<&Account> {
    j.master.flatten_account_tree()
}

/// Structural consistency of a journal: every reference leads to the value it stands for.
pub fn consistent(j: &Journal) {
    for x in &j.xacts {
        for p in &x.posts {
            sx::assert(p.xact_ptr == x as *const _, "a posting refers to its transaction");
            sx::assert(sx::live(p.account), "a posting's account is valid");
            let a = unsafe { &*p.account };
            let mut n = 0;
            for q in &a.posts {
                if *q == p as *const Post {
                    n += 1;
                }
            }
            sx::assert(n == 1, "an account lists each of its postings once");
            for m in [&p.amount, &p.cost] {
                if let Some(c) = m.as_ref().and_then(|m| m.get_commodity()) {
                    sx::assert(sx::live(c as *const _), "an amount's commodity is valid");
                    let known = j.commodity_pool.find(&c.symbol).map(|k| k as *const _);
                    sx::assert(known == Some(c as *const _), "an amount's commodity is the pool's");
                }
            }
        }
    }
    let mut listed = 0;
    for a in tree(j) {
        for q in &a.posts {
            sx::assert(sx::live(*q), "an account's posting is valid");
            let p = unsafe { &**q };
            sx::assert(p.account == a as *const Account, "an account's posting refers to the account");
            listed += 1;
        }
    }
    sx::assert(listed == j.all_posts().len(), "accounts list the journal's postings");
}

/// The number with the other sign.
pub fn negated(n: &Num) -> Num {
    let t = if n.t[0] == b'-' { n.t[1..].to_vec() } else { [&b"-"[..], &n.t].concat() };
    Num { t, v: n.v.neg() }
}
/// Chars of ordinary words.
pub const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
pub const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// Byte equality decided as one condition.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

/// Exact per-commodity sums, the oracle of balances.
#[derive(Clone)]
pub struct Sums(pub Vec<(String, Dec)>);
impl Sums {
    pub fn new() -> Sums {
        Sums(vec![])
    }
    pub fn add(&mut self, s: &str, d: Dec) {
        for e in self.0.iter_mut() {
            if e.0 == s {
                e.1 = e.1.add(d);
                return;
            }
        }
        self.0.push((s.to_string(), d));
    }
    pub fn get(&self, s: &str) -> Dec {
        for e in &self.0 {
            if e.0 == s {
                return e.1;
            }
        }
        Dec::zero()
    }
}
/// Every amount listed is right, no commodity is listed twice, and a commodity that is not listed sums to zero.
pub fn check_amounts(listed: &[(String, Dec)], want: &Sums, what: &str) {
    let mut i = 0;
    while i < listed.len() {
        let mut k = 0;
        while k < i {
            sx::assert(listed[k].0 != listed[i].0, "a commodity is listed once");
            k += 1;
        }
        sx::assert(listed[i].1.eq(want.get(&listed[i].0)), what);
        i += 1;
    }
    for w in &want.0 {
        sx::assert(listed.iter().any(|l| l.0 == w.0), "every commodity posted is listed, even with a sum of zero");
    }
}
/// Amounts of a list, by symbol.
pub fn listed(v: &[Amount]) -> Vec<(String, Dec)> {
    v.iter().map(|a| (sym(a).to_string(), amt(a))).collect()
}
/// Reads "10 EUR-2.5 USD", symbols without digits, dots and minus signs.
pub fn read_amounts(t: &str) -> Vec<(String, Dec)> {
    let b = t.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        let Some((d, n)) = read_num(&b[i..]) else {
            sx::assert(false, "a balance is a list of amounts");
            return r;
        };
        i += n;
        let mut s = String::new();
        if i < b.len() && b[i] == b' ' {
            i += 1;
            let k = i;
            while i < b.len() && !(b[i] >= b'0' && b[i] <= b'9') && b[i] != b'-' {
                i += 1;
            }
            s = utf8(&b[k..i]).to_string();
        }
        r.push((s, d));
    }
    r
}

/// A transaction as the generator meant it.
pub struct Want {
    pub account: String,
    pub amount: Dec,
    pub symbol: String,
}
/// Does the journal hold exactly these transactions?
pub fn check_journal(j: &Journal, want: &[Vec<Want>]) {
    sx::assert(j.xacts.len() == want.len(), "number of transactions");
    let mut i = 0;
    while i < want.len() {
        let x = &j.xacts[i];
        sx::assert(x.posts.len() == want[i].len(), "number of postings");
        let mut k = 0;
        while k < want[i].len() {
            let (p, w) = (&x.posts[k], &want[i][k]);
            sx::assert(same(account(p).fullname().as_bytes(), w.account.as_bytes()), "account of a posting");
            match &p.amount {
                None => sx::assert(false, "every posting has an amount"),
                Some(a) => {
                    sx::assert(same(sym(a).as_bytes(), w.symbol.as_bytes()), "commodity of a posting");
                    sx::assert(amt(a).eq(w.amount), "amount of a posting");
                }
            }
            k += 1;
        }
        i += 1;
    }
}
/// n characters, some of them symbolic, no two stretches alike.
pub fn long(n: usize, set: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 1);
    let mut k = 7usize;
    for i in 0..n {
        k = (k * 37 + i) % 251;
        v.push(if i == 0 || i + 1 == n || i == n / 2 { sx::byte(set) } else { b"abcdefghijklmnopqrstuvwxyz"[k % 26] });
    }
    v
}
