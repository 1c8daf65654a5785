//! Decimal numbers.
use crate::{sx, util::*};
use ledger_rs_lib::amount::Quantity;

fn frac(t: &[u8]) -> usize {
    match t.iter().position(|c| *c == b'.') {
        Some(i) => t.len() - i - 1,
        None => 0,
    }
}

/// Any number of up to p0 + p1 digits is read exactly.
#[no_mangle]
pub fn h_c04_value() {
    let ni = sx::choose(sx::param(0, 8) + 1);
    let nf = sx::choose(sx::param(1, 6) + 1);
    sx::assume(ni + nf > 0);
    let n = digits(sx::flip(), ni, nf);
    let q = Quantity::from_str(utf8(&n.t));
    match q {
        None => sx::assert(false, "a decimal number is accepted"),
        Some(q) => {
            sx::assert(val(&q).eq(n.v), "a number is read exactly");
            sx::assert(q.is_zero() == n.v.is_zero(), "zero is zero");
        }
    }
    sx::cover("end");
}
/// What is printed reads back as the same number, with the same number of decimals.
#[no_mangle]
pub fn h_c04_display() {
    let k = sx::choose(sx::param(0, 8)) as usize;
    let (ni, nf) = [(1, 0), (2, 0), (1, 1), (2, 2), (0, 2), (1, 4), (4, 0), (3, 2)][k];
    let n = digits(sx::flip(), ni, nf);
    let q = Quantity::from_str(utf8(&n.t)).unwrap();
    let t = q.to_string();
    match read_num(t.as_bytes()) {
        Some((d, len)) => {
            sx::assert(len == t.len(), "a number is printed as a number");
            sx::assert(d.eq(n.v), "a number is printed exactly");
            sx::assert(frac(t.as_bytes()) == nf, "decimals are kept");
        }
        None => sx::assert(false, "a number is printed as a number"),
    }
    sx::out(&t);
    sx::cover("end");
}
/// Long numbers, up to 28 digits: known digits with symbolic ones at any place.
#[no_mangle]
pub fn h_c04_long() {
    let shapes = [(28, 0), (1, 27), (14, 14), (19, 0), (18, 1), (10, 9), (9, 10), (20, 8), (0, 28), (26, 2)];
    let (ni, nf) = shapes[sx::choose(shapes.len() as u64)];
    let d = sx::param(0, 2) as usize;
    let at = sx::choose((ni + nf - d + 1) as u64);
    let neg = sx::flip();
    let mut t = vec![];
    let mut m: i128 = 0;
    if neg {
        t.push(b'-');
    }
    for k in 0..ni + nf {
        if k == ni {
            t.push(b'.');
        }
        let c = if k >= at && k < at + d { sx::digit() } else { b'0' + ((k * 7 + 3) % 10) as u8 };
        t.push(c);
        m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    let v = Dec { m: if neg { m.wrapping_neg() } else { m }, s: nf as u32 };
    match Quantity::from_str(utf8(&t)) {
        None => sx::assert(false, "a number of 28 digits is accepted"),
        Some(q) => sx::assert(val(&q).eq(v), "a long number is read exactly"),
    }
    sx::cover("end");
}
/// A number with more digits than can be kept is refused, not rounded.
#[no_mangle]
pub fn h_c04_over() {
    let (ni, nf) = [(30, 0), (31, 2), (1, 29), (15, 15), (0, 30), (29, 4)][sx::choose(6)];
    let mut t = vec![];
    if sx::flip() {
        t.push(b'-');
    }
    for k in 0..ni + nf {
        if k == ni {
            t.push(b'.');
        }
        // 29 digits from 7.9e28 on cannot be kept
        t.push(if k == 0 { b'9' } else if k + 3 >= ni + nf || k == 5 { sx::byte(b"123456789") } else { b'8' });
    }
    match Quantity::from_str(utf8(&t)) {
        None => sx::cover("end"),
        Some(_) => sx::assert(false, "a number that cannot be kept exactly is refused"),
    }
}
/// Comparison and sign of numbers.
#[no_mangle]
pub fn h_c04_compare() {
    let x = num(&[(2, 0), (1, 1), (1, 2)]);
    let y = num(&[(2, 0), (1, 2), (0, 2)]);
    let (p, q) = (Quantity::from_str(utf8(&x.t)).unwrap(), Quantity::from_str(utf8(&y.t)).unwrap());
    sx::assert((p == q) == x.v.eq(y.v), "equal numbers compare equal");
    let s = if x.v.s > y.v.s { x.v.s } else { y.v.s };
    sx::assert((p < q) == (x.v.scaled(s) < y.v.scaled(s)), "numbers compare by value");
    if !x.v.is_zero() {
        sx::assert(p.is_sign_positive() == (x.v.m > 0), "sign");
    }
    let mut r = p;
    r.set_sign_negative();
    sx::assert(val(&r).eq(if x.v.m > 0 { x.v.neg() } else { x.v }), "negative of the same size");
    r.set_sign_positive();
    sx::assert(val(&r).eq(if x.v.m > 0 { x.v } else { x.v.neg() }), "positive of the same size");
    sx::cover("end");
}
/// What is printed of a long number reads back as the same number.
#[no_mangle]
pub fn h_c04_print() {
    let shapes = [(28, 0), (1, 27), (14, 14), (10, 9), (0, 28), (20, 3), (2, 24), (0, 22), (5, 16)];
    let (ni, nf) = shapes[sx::choose(shapes.len() as u64)];
    let n = ni + nf;
    // all other digits zero, or all of them something
    let fill = sx::flip();
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose(5)];
    let neg = sx::flip();
    let mut t = vec![];
    let mut m: i128 = 0;
    if neg {
        t.push(b'-');
    }
    for k in 0..n {
        if k == ni {
            t.push(b'.');
        }
        let c = if k == at { sx::digit() } else if fill { b'0' + ((k * 7 + 3) % 10) as u8 } else { b'0' };
        t.push(c);
        m = m.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    let v = Dec { m: if neg { m.wrapping_neg() } else { m }, s: nf as u32 };
    let Some(q) = Quantity::from_str(utf8(&t)) else {
        sx::assert(false, "a number of 28 digits is accepted");
        return;
    };
    let p = q.to_string();
    match read_num(p.as_bytes()) {
        Some((d, len)) => {
            sx::assert(len == p.len(), "a number is printed as a number");
            sx::assert(d.eq(v), "a number is printed exactly");
            sx::assert(frac(p.as_bytes()) == nf, "decimals are kept");
        }
        None => sx::assert(false, "a number is printed as a number"),
    }
    sx::cover("end");
}
/// Zeros before a number and behind its fraction do not change its value.
#[no_mangle]
pub fn h_c04_padded() {
    let lead = [0, 1, 5, 17, 18, 19, 27, 30][sx::choose(8)];
    let (ni, nf) = [(1, 0), (2, 0), (0, 1), (1, 1), (1, 2)][sx::choose(5)];
    let trail = if nf == 0 { 0 } else { [0, 1, 12, 19, 25][sx::choose(5)] };
    let n = digits(sx::flip(), ni, nf);
    let k = (n.t[0] == b'-') as usize;
    let mut t = n.t[..k].to_vec();
    t.extend(vec![b'0'; lead]);
    t.extend_from_slice(&n.t[k..]);
    t.extend(vec![b'0'; trail]);
    match Quantity::from_str(utf8(&t)) {
        None => sx::assert(false, "a number with zeros around it is accepted"),
        Some(q) => {
            sx::assert(val(&q).eq(n.v), "a number is read exactly");
            sx::assert(val(&q).s as usize == nf + trail, "decimals are kept");
            sx::assert(q == Quantity::from(utf8(&n.t)), "numbers compare by value");
        }
    }
    sx::cover("end");
}
/// Numbers made from integers and from text, and turned back.
#[no_mangle]
pub fn h_c04_from() {
    let n = digits(sx::flip(), sx::choose(9) as usize + 1, 0);
    let i = n.v.m as i32;
    let q = Quantity::from(i);
    sx::assert(val(&q).eq(n.v), "a number made from an integer has its value");
    let back: i32 = q.into();
    sx::assert(back == i, "an integer is turned back");
    let p = Quantity::from(utf8(&n.t));
    sx::assert(val(&p).eq(n.v) && p == q, "a number is read exactly");
    sx::cover("end");
}
